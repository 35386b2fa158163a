package main

// A backend whose ledgers are what the script says.

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/cespedes/accounting"
)

type builtIn struct {
	Accts []struct {
		Name, Code string
		Parent     int
		Comments   []string
	}
	Currs  []string
	Dflt   int
	Txns   []newTxn
	Prices []struct {
		Time int64
		Cur  string
		Val  *namedVal
	}
	Nil bool // leave the maps that it does not need
}

var builtMu sync.Mutex
var builtData = map[string]builtIn{}

type builtDriver struct{}
type builtConn struct{}

func (builtConn) Close() error { return nil }
func (builtConn) Refresh()     {}

func (builtDriver) Open(name string, backend *accounting.Backend) (accounting.Connection, error) {
	builtMu.Lock()
	in, ok := builtData[strings.TrimPrefix(name, "vbuilt:")]
	builtMu.Unlock()
	if !ok {
		return nil, errors.New("nothing to build")
	}
	l := backend.Ledger
	for i, a := range in.Accts {
		l.Accounts = append(l.Accounts, &accounting.Account{ID: simpleID(fmt.Sprintf("acct:%d", i+1)), Name: a.Name, Code: a.Code})
	}
	for _, c := range in.Currs {
		l.Currencies = append(l.Currencies, &accounting.Currency{Name: c, Precision: 2})
	}
	l.DefaultCurrency = currency(l, in.Dflt)
	if !in.Nil {
		l.Comments = make(map[interface{}][]string)
		l.Assertions = make(map[*accounting.Split]accounting.Value)
		l.SplitPrices = make(map[*accounting.Split]accounting.Value)
	}
	for i, a := range in.Accts {
		if a.Parent != 0 {
			l.Accounts[i].Parent = l.Accounts[a.Parent-1]
		}
		if len(a.Comments) > 0 {
			if l.Comments == nil {
				l.Comments = make(map[interface{}][]string)
			}
			l.Comments[l.Accounts[i]] = a.Comments
		}
	}
	for i, t := range in.Txns {
		l.Transactions = append(l.Transactions, buildTxn(l, t, fmt.Sprintf("txn%d", i+1)))
	}
	for i, p := range in.Prices {
		l.Prices = append(l.Prices, &accounting.Price{ID: simpleID(fmt.Sprintf("price:%d", i+1)), Time: tm(&p.Time),
			Currency: (&namedVal{Cur: p.Cur}).value(l).Currency, Value: p.Val.value(l)})
	}
	return builtConn{}, nil
}

func init() {
	accounting.Register("vbuilt", builtDriver{})
	pureOps["build"] = func(o op) M { // what vbuilt:TEXT supplies
		var in builtIn
		if err := json.Unmarshal(o.Spec, &in); err != nil {
			return M{"res": "harness", "err": err.Error()}
		}
		builtMu.Lock()
		builtData[o.Text] = in
		builtMu.Unlock()
		return M{"res": "ok"}
	}
}
