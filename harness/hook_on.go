//go:build verif

package main

import "github.com/rom1mouret/ml-essentials/utils"

func setHook(f func(point, key string)) { utils.VerifHook = f }
