prop='X04'
needs='A source that cannot be converted inside a node, then a good one.'
breaks='The next document lacks what was matched.'
edits=[('tpl/extractor/extractor.go', '\t\tp.doc.clear()\n\t\tp.stk = &p.doc\n', '\t\tif p.stk == nil {\n\t\t\tp.stk = &p.doc\n\t\t}\n\t\tp.doc.clear()\n')]
demo='''
package main

import (
	"reflect"

	"github.com/qiniu/text/tpl/extractor"
)

type doc = map[string]interface{}

func eng(g string) *extractor.Engine {
	e, err := extractor.New(g, nil)
	if err != nil {
		panic(err)
	}
	return e
}

func same(e *extractor.Engine, src string, want doc) {
	got, err := e.SafeParse([]byte(src), "")
	if err != nil {
		panic(err)
	}
	if !reflect.DeepEqual(got, want) {
		panic("another document")
	}
}

func main() {
	e := eng(`n = INT/x_Int
doc = n/n_Node`)
	same(e, `1`, doc{"n": doc{"x": int64(1)}})
	if d, err := e.SafeParse([]byte(`99999999999999999999999`), ""); err == nil {
		panic(d)
	}
	same(e, `2`, doc{"n": doc{"x": int64(2)}})
}
'''
