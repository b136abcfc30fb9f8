//go:build !verif

package main

import (
	"errors"

	"github.com/williamflynt/topolith/pkg/app"
)

const hooked = false

func appUndo(a app.App) error { return errors.New("no hook") }
func appRedo(a app.App) error { return errors.New("no hook") }
