prop="K03"
needs="An operand that is used again after it was an argument of an operation (a function that returns a shared value)."
breaks="Adding changes the left operand in place."
edits=[("tpl/rat/big.go","	return new(big.Rat).Add(a, b)","	return a.Add(a, b)")]
demo='''
package main

import (
	"math/big"

	"github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/rat"
)

func main() {
	half := big.NewRat(1, 2)
	rat.Fntable["half"] = func() *big.Rat { return half }
	c := rat.New()
	e, err := interpreter.New(c, nil)
	if err != nil {
		panic(err)
	}
	if err := e.Eval("half() + half()*half()"); err != nil {
		panic(err)
	}
	if r, _ := c.Ret(); r.RatString() != "3/4" || half.RatString() != "1/2" {
		panic("an operand is changed")
	}
}
'''
