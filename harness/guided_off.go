//go:build !guided

package main

const guide = false

func (p *Prop[C]) guided(w *worker) {}
