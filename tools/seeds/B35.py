prop='X03'
needs='A node that fails after an inner node of it was begun, in a choice whose other alternative matches.'
breaks='Parts that are matched afterwards are put in the node that was given up.'
edits=[('tpl/extractor/extractor.go', '\t\t\tp.stk = trans.stk\n\t\t\tif err != nil {\n\t\t\t\tp.stk.hd = trans.hd\n\t\t\t}', '\t\t\tif err != nil {\n\t\t\t\ttrans.stk.hd = trans.hd\n\t\t\t\treturn\n\t\t\t}\n\t\t\tp.stk = trans.stk')]
demo='''
package main

import (
	"reflect"

	"github.com/qiniu/text/tpl/extractor"
)

type doc = map[string]interface{}

func eng(g string) *extractor.Engine {
	e, err := extractor.New(g, nil)
	if err != nil {
		panic(err)
	}
	return e
}

func same(e *extractor.Engine, src string, want doc) {
	got, err := e.SafeParse([]byte(src), "")
	if err != nil {
		panic(err)
	}
	if !reflect.DeepEqual(got, want) {
		panic("another document")
	}
}

func main() {
	e := eng(`a = INT/x_Int ','
b = INT/y_Int ';'
doc = (a/a_Node | b/b_Node) ?(IDENT/z_Text)`)
	same(e, `1,z`, doc{"a": doc{"x": int64(1)}, "z": "z"})
	same(e, `1;z`, doc{"b": doc{"y": int64(1)}, "z": "z"})
}
'''
