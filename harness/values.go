package main

import (
	"strconv"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/backend/ledger"
)

// Values, balances and dates, without any ledger.

type curIn struct {
	Name, Thou, Dec string
	Before, Nospace bool
	Prec            int
	Nil             bool
}

func (c curIn) currency() *accounting.Currency {
	if c.Nil {
		return nil
	}
	return &accounting.Currency{Name: c.Name, PrintBefore: c.Before, WithoutSpace: c.Nospace, Thousand: c.Thou, Decimal: c.Dec, Precision: c.Prec}
}

type valueItem struct {
	Op    string
	Cu    curIn
	Amt   string
	Curs  []curIn
	Vals  [][2]string
	Text  string
	R, R2 int
}

func amount(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

func valueItems(o op) M {
	var curs []*accounting.Currency
	for _, c := range o.Curs {
		curs = append(curs, c.currency())
	}
	val := func(v [2]string) accounting.Value {
		i, _ := strconv.Atoi(v[0])
		return accounting.Value{Amount: amount(v[1]), Currency: curs[i-1]}
	}
	index := func(c *accounting.Currency) int {
		for i := range curs {
			if curs[i] == c {
				return i + 1
			}
		}
		return 0
	}
	regs := make([]accounting.Balance, o.N+1)
	res := []M{}
	for _, x := range o.Items {
		switch x.Op {
		case "show":
			v := accounting.Value{Amount: amount(x.Amt), Currency: x.Cu.currency()}
			m := M{"plain": []string{v.GetString(false, false), v.GetString(false, true)}, "full": []string{v.GetString(true, false), v.GetString(true, true)}}
			if v.String() != v.GetString(false, true) || v.FullString() != v.GetString(true, true) {
				m = M{"plain": []string{v.GetString(false, false), v.String()}, "full": []string{v.GetString(true, false), v.FullString()}}
			}
			res = append(res, m)
		case "list":
			var b accounting.Balance
			for _, v := range x.Vals {
				b = append(b, val(v))
			}
			res = append(res, M{"text": b.String()})
		case "date":
			t, err := ledger.GetDate(x.Text)
			if err != nil {
				res = append(res, M{"res": "error"})
			} else {
				res = append(res, M{"res": "ok", "time": timeOut(t)})
			}
		default:
			switch x.Op {
			case "add":
				regs[x.R].Add(val(x.Vals[0]))
			case "sub":
				regs[x.R].Sub(val(x.Vals[0]))
			case "addb":
				regs[x.R].AddBalance(regs[x.R2])
			case "subb":
				regs[x.R].SubBalance(regs[x.R2])
			case "dup":
				regs[x.R2] = regs[x.R].Dup()
			}
			seen := [][][]interface{}{}
			for _, b := range regs[1:] {
				s := [][]interface{}{}
				for _, v := range b {
					s = append(s, []interface{}{index(v.Currency), strconv.FormatInt(v.Amount, 10)})
				}
				seen = append(seen, s)
			}
			res = append(res, M{"seen": seen})
		}
	}
	return M{"res": "ok", "items": res}
}

func init() {
	pureOps["values"] = valueItems
}
