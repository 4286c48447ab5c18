package zzsched

import "net/http"

// Router is the handler the API would serve.
var Router http.Handler

func Serve(h http.Handler, addr ...string) error { Router = h; return nil }

func ListenAndServe(addr string, h http.Handler) error { Router = h; return nil }
