// mutate FILE...: lists single-point changes of Go sources as JSON lines {file, start, end, new, what, func, line}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File, New, What, Func string
	Start, End, Line      int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(s, e token.Pos, nw, what string) {
			enc.Encode(mut{file, nw, what, fn, off(s), off(e), fs.Position(s).Line})
		}
		swap := map[string][]string{"X": {"Y"}, "Y": {"X"}, "W": {"H"}, "H": {"W"}, "A": {"B", "D"}, "B": {"C"}, "C": {"B"}, "D": {"A"}, "E": {"F"}, "F": {"E"},
			"widthPercentage": {"heightPercentage", "diagPercentage"}, "heightPercentage": {"widthPercentage", "diagPercentage"}, "diagPercentage": {"widthPercentage", "heightPercentage"},
			"placeX": {"placeY", "pathStartX"}, "placeY": {"placeX", "pathStartY"}, "curX": {"curY"}, "curY": {"curX"}, "cntlPtX": {"cntlPtY"}, "cntlPtY": {"cntlPtX"},
			"pathStartX": {"pathStartY"}, "pathStartY": {"pathStartX"}, "FillOpacity": {"LineOpacity"}, "LineOpacity": {"FillOpacity"}, "FillerColor": {"LinerColor"}, "LinerColor": {"FillerColor"},
			"LeadLineCap": {"TrailLineCap"}, "TrailLineCap": {"LeadLineCap"}, "true": {"false"}, "false": {"true"}, "Sin": {"Cos"}, "Cos": {"Sin"}, "Min": {"Max"}, "Max": {"Min"},
			"cx": {"cy"}, "cy": {"cx"}, "rx": {"ry"}, "ry": {"rx"}, "minX": {"minY"}, "minY": {"minX"}, "maxX": {"maxY"}, "maxY": {"maxX"}, "continue": {"break"},
			"HasPrefix": {"HasSuffix"}, "HasSuffix": {"HasPrefix"}, "Start": {"Line"}, "StrictErrorMode": {"WarnErrorMode"}, "WarnErrorMode": {"IgnoreErrorMode"}, "errorMode": nil,
			"inTitleText": {"inDescText"}, "inDescText": {"inTitleText"}, "Titles": {"Descriptions"}, "Descriptions": {"Titles"}, "inGrad": {"inMask"}, "inMask": {"inDefs"}, "inDefs": {"inMask"},
			"ButtCap": {"SquareCap"}, "RoundCap": {"ButtCap"}, "SquareCap": {"RoundCap"}, "CubicCap": {"QuadraticCap"}, "QuadraticCap": {"CubicCap"},
			"LineCapButt": {"LineCapRound"}, "LineCapRound": {"LineCapSquare"}, "LineCapSquare": {"LineCapButt"}, "LineJoinBevel": {"LineJoinRound"}, "LineJoinRound": {"LineJoinBevel"},
			"MiterJoin": {"BevelJoin"}, "BevelJoin": {"RoundJoin"}, "RoundJoin": {"MiterJoin"}, "Miter": {"MiterClip"}, "MiterClip": {"Miter"}, "Arc": {"ArcClip"}, "ArcClip": {"Arc"}, "Round": {"Bevel"}, "Bevel": {"Round"},
			"FlatGap": {"RoundGap"}, "RoundGap": {"FlatGap"}, "CubicGap": {"QuadraticGap"}, "QuadraticGap": {"CubicGap"}, "filler": nil, "MoveTo": {"LineTo"}, "Spread": nil, "UserSpaceOnUse": {"ObjectBoundingBox"}, "ObjectBoundingBox": {"UserSpaceOnUse"}}
		ops := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.SHR: {"<<"}}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
				if x.Recv != nil {
					fn = text(x.Recv.List[0].Type) + "." + fn
				}
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.Field:
				return false
			case *ast.BinaryExpr:
				for _, o := range ops[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o)
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT || x.Op == token.SUB {
					emit(x.OpPos, x.OpPos+1, "", "drop "+x.Op.String())
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
			case *ast.Ident:
				for _, o := range swap[x.Name] {
					emit(x.Pos(), x.End(), o, x.Name+" -> "+o)
				}
			case *ast.KeyValueExpr:
				if _, ok := x.Key.(*ast.Ident); ok {
					ast.Inspect(x.Value, func(ast.Node) bool { return true })
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "literal +1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "literal -1")
						}
					}
				case token.FLOAT:
					emit(x.Pos(), x.End(), "("+x.Value+"*1.01)", "literal *1.01")
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil && len(s) > 0 && len(s) < 20 {
						emit(x.Pos(), x.End(), strconv.Quote(s+"~"), "string")
					}
				case token.CHAR:
					emit(x.Pos(), x.End(), "'~'", "char "+x.Value)
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					drop(emit, text, s)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					drop(emit, text, s)
				}
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 && text(x.Results[k-1]) != "nil" {
					emit(x.Results[k-1].Pos(), x.Results[k-1].End(), "nil", "return nil")
				}
			case *ast.AssignStmt:
				if x.Tok == token.ADD_ASSIGN || x.Tok == token.MUL_ASSIGN || x.Tok == token.SUB_ASSIGN || x.Tok == token.QUO_ASSIGN {
					emit(x.TokPos, x.TokPos+2, "=", x.Tok.String()+" -> =")
				}
			}
			return true
		})
	}
}

func drop(emit func(s, e token.Pos, nw, what string), text func(ast.Node) string, s ast.Stmt) {
	switch x := s.(type) {
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			emit(s.Pos(), s.End(), "", "drop "+text(s))
		}
	case *ast.ExprStmt, *ast.BranchStmt, *ast.IncDecStmt, *ast.DeferStmt:
		emit(s.Pos(), s.End(), "", "drop "+text(s))
	}
}
