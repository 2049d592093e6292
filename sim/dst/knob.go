package dst

// Knobs are values for constants of the code under test that the instrumented
// program reads through Knob.
var Knobs = map[string]int{}

// Knob is the value of a constant: the shipped one, unless set.
func Knob(name string, shipped int) int {
	if v, ok := Knobs[name]; ok {
		return v
	}
	return shipped
}
