package main

import "syscall"

func dup2(a, b int) { syscall.Dup3(a, b, 0) }
