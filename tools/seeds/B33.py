prop='X01'
needs='Two arrays of different names, filled one right after the other.'
breaks='Elements of both arrays end up in one of them.'
edits=[('tpl/extractor/document.go', 'hd == nil || hd.cate != cate || hd.tag != tag', 'hd == nil || hd.cate != cate || len(hd.tag) != len(tag)')]
demo='''
package main

import (
	"reflect"

	"github.com/qiniu/text/tpl/extractor"
)

type doc = map[string]interface{}

func eng(g string) *extractor.Engine {
	e, err := extractor.New(g, nil)
	if err != nil {
		panic(err)
	}
	return e
}

func same(e *extractor.Engine, src string, want doc) {
	got, err := e.SafeParse([]byte(src), "")
	if err != nil {
		panic(err)
	}
	if !reflect.DeepEqual(got, want) {
		panic("another document")
	}
}

func main() {
	e := eng(`doc = *(INT/a_Ints) *(IDENT/b_TextArray)`)
	same(e, `1 2 x y`, doc{"a": []interface{}{int64(1), int64(2)}, "b": []interface{}{"x", "y"}})
}
'''
