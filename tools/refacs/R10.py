# extractor
checks = "X01 X02 X03 X04"
D = "tpl/extractor/document.go"
X = "tpl/extractor/extractor.go"
edits = [
(D, '''		var v interface{}
		switch hd.cate {
		case cateLeaf:
			v, hd = hd.val, hd.tail
		case cateNode:
			v, hd = hd.val.(*Node).toMap(), hd.tail
		case cateNodeArray:
			n := arrayCollect(hd)
			items := make([]map[string]interface{}, n)
			for i := n - 1; i >= 0; i-- {
				items[i] = hd.val.(*Node).toMap()
				hd = hd.tail
			}
			if rest, ok := data[tag].([]map[string]interface{}); ok { // other marks lie between
				items = append(items, rest...)
			}
			v = items
		case cateLeafArray:
			n := arrayCollect(hd)
			items := make([]interface{}, n)
			for i := n - 1; i >= 0; i-- {
				items[i] = hd.val
				hd = hd.tail
			}
			if rest, ok := data[tag].([]interface{}); ok { // other marks lie between
				items = append(items, rest...)
			}
			v = items
		default:
			panic("unknown node category")
		}
		data[tag] = v
	}
	return data
}
''', '''		val := hd.val
		if node, ok := val.(*Node); ok && hd.cate&cateNode != 0 {
			val = node.toMap()
		}
		switch hd.cate {
		case cateLeaf, cateNode:
			data[tag] = val
		case cateNodeArray:
			rest, _ := data[tag].([]map[string]interface{})
			data[tag] = append([]map[string]interface{}{val.(map[string]interface{})}, rest...)
		case cateLeafArray:
			rest, _ := data[tag].([]interface{})
			data[tag] = append([]interface{}{val}, rest...)
		default:
			panic("unknown node category")
		}
		hd = hd.tail
	}
	return data
}
'''),
(D, '''func arrayCollect(hd *Cons) (n int) {

	n = 1
	cate, tag := hd.cate, hd.tag
	for {
		hd = hd.tail
		if hd == nil || hd.cate != cate || hd.tag != tag {
			return
		}
		n++
	}
}
''', ''),
(D, '''	cate := cateLeaf
	if isArray {
		cate = cateLeafArray
	}
	p.hd = &Cons{tag: tag, val: val, tail: p.hd, cate: cate}
''', '''	p.push(cateLeaf, tag, val, isArray)
'''),
(D, '''	node := new(Node)
	cate := cateNode
	if isArray {
		cate = cateNodeArray
	}
	p.hd = &Cons{tag: tag, val: node, tail: p.hd, cate: cate}
	return node
}
''', '''	node := &Node{}
	p.push(cateNode, tag, node, isArray)
	return node
}

func (p *Node) push(cate int, tag string, val interface{}, isArray bool) {
	if isArray {
		cate |= cateArray
	}
	old := p.hd
	p.hd = &Cons{tag, val, old, cate}
}
'''),
(X, '''	case "Int":
		v, err := strconv.ParseInt(lit, 10, 64)
		if err != nil {
			panic(err)
		}
		return v
	case "Float":
		v, err := strconv.ParseFloat(lit, 64)
		if err != nil {
			panic(err)
		}
		return v
''', '''	case "Int":
		v, err := strconv.ParseInt(lit, 10, 64)
		return must(v, err)
	case "Float":
		v, err := strconv.ParseFloat(lit, 64)
		return must(v, err)
'''),
(X, '''func GetValue(''', '''func must(v interface{}, err error) interface{} {
	if err == nil {
		return v
	}
	panic(err)
}

func GetValue('''),
(X, '''		markOld := mark
		isArray := false
		if strings.HasSuffix(mark, "s") {
			mark, isArray = mark[:len(mark)-1], true
		} else if strings.HasSuffix(mark, "Array") {
			mark, isArray = mark[:len(mark)-5], true
		}
		pos := strings.LastIndex(mark, "_")
		if pos < 0 {
			panic("invalid mark: " + markOld)
		}
		typ := mark[pos+1:]
		mark = mark[:pos]
''', '''		mark, typ, isArray := splitMark(mark)
'''),
(X, '''func New(grammar''', '''func splitMark(mark string) (name, typ string, isArray bool) {
	base := mark
	for _, suffix := range []string{"s", "Array"} {
		if strings.HasSuffix(base, suffix) {
			base, isArray = strings.TrimSuffix(base, suffix), true
			break
		}
	}
	words := strings.Split(base, "_")
	last := len(words) - 1
	if last == 0 {
		panic("invalid mark: " + mark)
	}
	return strings.Join(words[:last], "_"), words[last], isArray
}

func New(grammar'''),
(X, '''			trans := ctx.(*transCtx)
			p.stk = trans.stk
			if err != nil {
				p.stk.hd = trans.hd
			}
''', '''			trans := ctx.(*transCtx)
			if p.stk = trans.stk; err == nil {
				return
			}
			trans.stk.hd = trans.hd
'''),
(X, '''	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case string:
				err = errors.New(v)
			case error:
				err = v
			default:
				panic(e)
			}
		}
	}()

	err = p.MatchExactly(code, fname)
	if err != nil {
		return
	}
	return p.doc.toMap(), nil
}
''', '''	defer catch(&err)
	return p.Parse(code, fname)
}

func catch(err *error) {
	switch v := recover().(type) {
	case nil:
	case string:
		*err = errors.New(v)
	case error:
		*err = v
	default:
		panic(v)
	}
}
'''),
]
