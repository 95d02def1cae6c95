package rt

// Global is a package-level variable of the instrumented code.
type Global struct {
	Name string
	Ptr  any
}

// Globals lists every package-level variable of the instrumented packages.
var Globals []Global

// RegisterGlobal is called from generated init functions.
func RegisterGlobal(name string, p any) { Globals = append(Globals, Global{name, p}) }
