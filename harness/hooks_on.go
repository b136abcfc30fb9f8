//go:build verif

package main

import "github.com/williamflynt/topolith/pkg/app"

const hooked = true

func appUndo(a app.App) error { return app.VerifUndo(a) }
func appRedo(a app.App) error { return app.VerifRedo(a) }
