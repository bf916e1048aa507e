//go:build !race

package vos

func held() func() { return func() {} }
