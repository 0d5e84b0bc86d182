package loader

import "unsafe"

type Function unsafe.Pointer
type CFunc struct {
	Name     string
	EntryOff uint32
	TextSize uint32
	MaxStack uintptr
	Pcsp     [][2]uint32
}
type GoC struct {
	CName  string
	CEntry *uintptr
	GoFunc interface{}
}

func WrapGoC(text []byte, natives []CFunc, stubs []GoC, modulename string, filename string) {}
