// Package vhttp stands for net/http: its server serves nobody.
package vhttp

import (
	"net/http"

	"github.com/flu-network/client/zzverif/sym"
)

type Handler = http.Handler

func ListenAndServe(addr string, h Handler) error {
	<-make(chan struct{})
	return nil
}

var _ = sym.Symbolic
