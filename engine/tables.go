package main

import (
	"go/token"
	"math/cmplx"
	"strconv"
	"sync"
	"unicode"
)

const tokADD = token.ADD

var uniMu sync.Mutex

var uniFuncs = map[string]func(rune) bool{
	"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower,
	"IsSpace": unicode.IsSpace, "IsPrint": unicode.IsPrint, "IsControl": unicode.IsControl, "IsNumber": unicode.IsNumber,
	"IsPunct": unicode.IsPunct, "IsSymbol": unicode.IsSymbol, "IsGraphic": unicode.IsGraphic, "strconv.IsPrint": strconv.IsPrint,
}

var cmplxFuncs = map[string]func(complex128) complex128{
	"Acos": cmplx.Acos, "Acosh": cmplx.Acosh, "Asin": cmplx.Asin, "Asinh": cmplx.Asinh, "Atan": cmplx.Atan, "Atanh": cmplx.Atanh,
	"Conj": cmplx.Conj, "Cos": cmplx.Cos, "Cosh": cmplx.Cosh, "Cot": cmplx.Cot, "Exp": cmplx.Exp, "Log": cmplx.Log, "Log10": cmplx.Log10,
	"Sin": cmplx.Sin, "Sinh": cmplx.Sinh, "Sqrt": cmplx.Sqrt, "Tan": cmplx.Tan, "Tanh": cmplx.Tanh,
}

var cmplxRFuncs = map[string]func(complex128) float64{"Abs": cmplx.Abs, "Phase": cmplx.Phase}

func cmplxPow(x, y complex128) complex128 { return cmplx.Pow(x, y) }
func cmplxRect(r, th float64) complex128  { return cmplx.Rect(r, th) }
