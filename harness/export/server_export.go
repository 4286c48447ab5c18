package server

import (
	"net"
	"reflect"
	"unsafe"
)

// VerifSetListener lets the harness supply the listener (overlay only, never part of /repo).
func (serv *TCPServer) VerifSetListener(l net.Listener) {
	if !verifSet(reflect.ValueOf(serv).Elem(), reflect.ValueOf(l)) {
		panic("HARNESS: TCPServer has no listener field")
	}
}

func verifSet(v, l reflect.Value) bool {
	want := reflect.TypeOf((*net.Listener)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == want {
			reflect.NewAt(want, unsafe.Pointer(f.UnsafeAddr())).Elem().Set(l)
			return true
		}
		if f.Kind() == reflect.Struct && verifSet(f, l) {
			return true
		}
	}
	return false
}
