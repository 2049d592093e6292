package dst
