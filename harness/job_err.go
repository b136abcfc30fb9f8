package main

// Deriving error values (spec/Errors.tla, spec/ErrTrace.tla).

import (
	stderrors "errors"
	"fmt"

	"github.com/williamflynt/topolith/pkg/errors"
	"github.com/williamflynt/topolith/pkg/grammar"
)

type Derivation struct {
	E    string     `json:"e"`
	From int        `json:"from"`
	N    int        `json:"n"`
	S    string     `json:"s"`
	Kvs  [][]string `json:"kvs"`
	W    [][]any    `json:"w"`
}
type ErrJob struct {
	T         string       `json:"t"`
	Job       string       `json:"job"`
	Ops       []Derivation `json:"ops"`
	CrashAt   int          `json:"crash_at"`
	CrashKind string       `json:"crash_kind"`
}
type ErrView struct {
	Code   int        `json:"code"`
	Desc   string     `json:"desc"`
	Msg    string     `json:"msg"`
	Data   [][]string `json:"data"`
	Unwrap string     `json:"unwrap"`
	Str    string     `json:"str"`
	Error  string     `json:"error"`
	POk    bool       `json:"pok"`
	PStmt  string     `json:"pstmt"`
	PCode  int        `json:"pcode"`
	PMsg   string     `json:"pmsg"`
}
type ErrStep struct {
	E     string     `json:"e"`
	D     Derivation `json:"d"`
	Crash string     `json:"crash"`
	Vals  []ErrView  `json:"vals"`
}
type ErrTrace struct {
	T    string    `json:"t"`
	Mode string    `json:"mode"`
	S    []ErrStep `json:"s"`
}

func viewErr(e errors.TopolithError) ErrView {
	v := ErrView{Code: int(e.Code), Desc: e.Description, Msg: e.Message, Data: [][]string{}, Str: e.String(), Error: e.Error()}
	for _, kv := range e.Data {
		v.Data = append(v.Data, []string{kv.Key, kv.Value})
	}
	if u := stderrors.Unwrap(e); u != nil {
		v.Unwrap = u.Error()
	}
	p, err := grammar.Parse(v.Str)
	v.POk = err == nil
	if err == nil {
		v.PStmt, v.PCode, v.PMsg = p.StmtType, p.Response.Status.Code, p.Response.Status.Message
	}
	return v
}

func runErr(j ErrJob, progress func(int)) ErrTrace {
	t := ErrTrace{T: j.T, Mode: "err", S: []ErrStep{}}
	vals := []errors.TopolithError{}
	kvPool, errPool := make([]errors.KvPair, 0, 64), make([]error, 0, 64) // arguments have room behind them
	for i, d := range j.Ops {
		if d.Kvs == nil {
			d.Kvs = [][]string{}
		}
		if d.W == nil {
			d.W = [][]any{}
		}
		st := ErrStep{E: "derive:" + d.E, D: d, Vals: []ErrView{}}
		if j.CrashAt == i+1 {
			st.Crash = j.CrashKind
			t.S = append(t.S, st)
			break
		}
		progress(i + 1)
		func() {
			defer func() {
				if r := recover(); r != nil {
					st.Crash = "panic " + fmt.Sprint(r)
				}
			}()
			kvs, errs := kvPool[:0], errPool[:0]
			for _, kv := range d.Kvs {
				kvs = append(kvs, errors.KvPair{Key: kv[0], Value: kv[1]})
			}
			for _, w := range d.W {
				switch w[0].(string) {
				case "text":
					errs = append(errs, stderrors.New(w[1].(string)))
				case "value":
					errs = append(errs, vals[int(w[1].(float64))-1])
				default:
					errs = append(errs, nil)
				}
			}
			// every derivation gets arguments of its own
			kvPool, errPool = make([]errors.KvPair, 0, 64), make([]error, 0, 64)
			var e errors.TopolithError
			switch d.E {
			case "new":
				e = errors.New(d.S)
			case "join":
				e = errors.Join(errs...)
			default:
				old := vals[d.From-1]
				switch d.E {
				case "code":
					e = old.UseCode(errors.TopolithErrorCode(d.N))
				case "desc":
					e = old.WithDescription(d.S)
				case "data":
					e = old.WithData(kvs...)
				case "clear":
					e = old.ClearData()
				case "wrap":
					e = old.WithError(errs...)
				default:
					panic("unknown derivation " + d.E)
				}
			}
			vals = append(vals, e)
			for _, v := range vals {
				st.Vals = append(st.Vals, viewErr(v))
			}
		}()
		t.S = append(t.S, st)
		if st.Crash != "" {
			break
		}
	}
	return t
}
