prop='X02'
needs='A character literal of one character that takes several bytes in UTF-8 but fits in a byte.'
breaks='A leaf is made from a character that is no byte.'
edits=[('tpl/extractor/extractor.go', 'tail != "" || multibyte', 'tail != "" || multibyte && v > 0xff')]
demo='''
package main

import (
	"reflect"

	"github.com/qiniu/text/tpl/extractor"
)

type doc = map[string]interface{}

func eng(g string) *extractor.Engine {
	e, err := extractor.New(g, nil)
	if err != nil {
		panic(err)
	}
	return e
}

func same(e *extractor.Engine, src string, want doc) {
	got, err := e.SafeParse([]byte(src), "")
	if err != nil {
		panic(err)
	}
	if !reflect.DeepEqual(got, want) {
		panic("another document")
	}
}

func main() {
	e := eng(`doc = CHAR/c_Char`)
	same(e, `'\\xe9'`, doc{"c": byte(0xe9)})
	if d, err := e.SafeParse([]byte(`'é'`), ""); err == nil {
		panic(d)
	}
}
'''
