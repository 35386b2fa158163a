// Command verifregistry executes scripts of registrations, openings and
// optional operations on the real code of cespedes/accounting, one script
// in each process, without any of its own backends.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cespedes/accounting"
)

type M = map[string]interface{}

type connection = accounting.Connection

type id string

func (i id) String() string { return string(i) }

type op struct {
	Op     string // register, open; account, inacct, ...
	Name   string
	Driver int // 0: nil
	Source string
	ID     *string
	T, T2  int64
	Acct   acctIn
	Txn    txnIn
	Clone  bool
	Fail   bool // what the backend's operation returns
}

type acctIn struct {
	ID         *string
	Name, Code string
}

type txnIn struct {
	ID   *string
	Time int64
	Desc string
	Accs []int // accounts of its splits (by position)
}

type driverIn struct {
	ID    int
	Mode  string // ok, error, spoiled
	Mask  int
	Inner []op // what it does while it opens a source
	Accts []acctIn
	Txns  []txnIn
}

type script struct {
	Threads [][]op
	Drivers []driverIn
}

var (
	clock   int64
	drivers = map[int]*fakeDriver{}
	mu      sync.Mutex
	events  []M
	looks   = map[string]int64{} // when a backend was asked for a source
)

func now() int64 { return atomic.AddInt64(&clock, 1) }

type fakeDriver struct{ in driverIn }

type fake struct {
	d     *fakeDriver
	calls [][]string
	fail  bool
}

func (f *fake) call(x ...string) { f.calls = append(f.calls, x) }

func mkID(s *string) accounting.ID {
	if s == nil {
		return nil
	}
	return id(*s)
}

func showID(i accounting.ID) string {
	if i == nil {
		return "nil"
	}
	return "=" + i.String()
}

func (d *fakeDriver) Open(url string, b *accounting.Backend) (accounting.Connection, error) {
	mu.Lock()
	looks[url] = now()
	mu.Unlock()
	for _, o := range d.in.Inner {
		do(o)
	}
	if d.in.Mode == "error" {
		return nil, errors.New("no")
	}
	l := b.Ledger
	l.Comments = map[interface{}][]string{l: {url}} // says which source was asked for
	for _, a := range d.in.Accts {
		l.Accounts = append(l.Accounts, &accounting.Account{ID: mkID(a.ID), Name: a.Name, Code: a.Code})
	}
	cur, _ := l.GetCurrency(fmt.Sprintf("D%d", d.in.ID)) // says which backend it is
	for _, t := range d.in.Txns {
		l.Transactions = append(l.Transactions, d.txn(l, t, cur))
	}
	if d.in.Mode == "spoiled" {
		a := &accounting.Account{Name: "spoiled"}
		l.Accounts = append(l.Accounts, a)
		l.Transactions = append(l.Transactions, &accounting.Transaction{ID: id("t"), Splits: []*accounting.Split{{Account: a, Value: accounting.Value{Amount: 1, Currency: cur}}}})
	}
	return newConnection(d.in.Mask, &fake{d: d}), nil
}

func (d *fakeDriver) txn(l *accounting.Ledger, t txnIn, cur *accounting.Currency) *accounting.Transaction {
	x := &accounting.Transaction{ID: mkID(t.ID), Time: time.Unix(t.Time, 0).UTC(), Description: t.Desc}
	for i, k := range t.Accs {
		v := int64(100)
		if i == len(t.Accs)-1 {
			v = -100 * int64(i)
		}
		x.Splits = append(x.Splits, &accounting.Split{Account: l.Accounts[k-1], Value: accounting.Value{Amount: v, Currency: cur}})
	}
	return x
}

// The operations that every connection has...
type basic struct{ f *fake }

func (b basic) Close() error {
	b.f.call("close")
	if b.f.fail {
		return errFails
	}
	return nil
}
func (b basic) Refresh()        { b.f.call("refresh") }
func (b basic) fakeConn() *fake { return b.f }

// ... and the optional ones
type mAccount struct{ m *fake }
type mTransactionsInAccount struct{ m *fake }
type mTransactionsInInterval struct{ m *fake }
type mNewAccount struct{ m *fake }
type mEditAccount struct{ m *fake }
type mNewTransaction struct{ m *fake }
type mEditTransaction struct{ m *fake }
type mFlush struct{ m *fake }

var (
	answerAccount = &accounting.Account{Name: "answer"}
	answerTxn     = &accounting.Transaction{Description: "answer"}
	answerTxns    = []*accounting.Transaction{answerTxn, nil, answerTxn}
)

// what was given to the operation that is being asked for
var (
	givenAcct accounting.Account
	givenTxn  accounting.Transaction
)

func showAcct(a accounting.Account) []string {
	return []string{showID(a.ID), a.Name, a.Code, same(reflect.DeepEqual(a, givenAcct))}
}
func showTxn(t accounting.Transaction) []string {
	return []string{showID(t.ID), fmt.Sprint(t.Time.Unix()), t.Description, fmt.Sprint(len(t.Splits)), same(reflect.DeepEqual(t, givenTxn))}
}
func same(b bool) string {
	if b {
		return "same"
	}
	return "different"
}

func (x mAccount) Account(i accounting.ID) *accounting.Account {
	x.m.call("account", showID(i))
	if x.m.fail {
		return nil
	}
	return answerAccount
}
func (x mTransactionsInAccount) TransactionsInAccount(i accounting.ID) []*accounting.Transaction {
	x.m.call("inacct", showID(i))
	if x.m.fail {
		return nil
	}
	return answerTxns
}
func (x mTransactionsInInterval) TransactionsInInterval(a, b time.Time) []*accounting.Transaction {
	x.m.call("interval", fmt.Sprint(a.Unix()), fmt.Sprint(b.Unix()))
	if x.m.fail {
		return nil
	}
	return answerTxns
}
func (x mNewAccount) NewAccount(a accounting.Account) (*accounting.Account, error) {
	x.m.call(append([]string{"newaccount"}, showAcct(a)...)...)
	if x.m.fail {
		return nil, errFails
	}
	return answerAccount, nil
}
func (x mEditAccount) EditAccount(a accounting.Account) (*accounting.Account, error) {
	x.m.call(append([]string{"editaccount"}, showAcct(a)...)...)
	if x.m.fail {
		return nil, errFails
	}
	return answerAccount, nil
}
func (x mNewTransaction) NewTransaction(t accounting.Transaction) (*accounting.Transaction, error) {
	x.m.call(append([]string{"newtransaction"}, showTxn(t)...)...)
	if x.m.fail {
		return nil, errFails
	}
	return answerTxn, nil
}
func (x mEditTransaction) EditTransaction(t accounting.Transaction) (*accounting.Transaction, error) {
	x.m.call(append([]string{"edittransaction"}, showTxn(t)...)...)
	if x.m.fail {
		return nil, errFails
	}
	return answerTxn, nil
}
func (x mFlush) Flush() error {
	x.m.call("flush")
	if x.m.fail {
		return errFails
	}
	return nil
}

// which backend made this ledger
func madeBy(l *accounting.Ledger) (int, string) {
	n := 0
	if len(l.Currencies) == 1 {
		fmt.Sscanf(l.Currencies[0].Name, "D%d", &n)
	}
	src := ""
	if c := l.Comments[l]; len(c) == 1 {
		src = c[0]
	}
	return n, src
}

func record(m M) {
	mu.Lock()
	defer mu.Unlock()
	events = append(events, m)
}

// do registers or opens
func do(o op) (l *accounting.Ledger) {
	if o.Op == "open" { // all the sources are different
		o.Source += fmt.Sprint(now())
	}
	m := M{"op": o.Op, "name": o.Name, "driver": o.Driver, "source": o.Source}
	m["inv"] = now()
	defer func() {
		if r := recover(); r != nil {
			m["res"] = "panic"
			l = nil
		}
		m["ret"] = now()
		mu.Lock()
		if t, ok := looks[o.Source]; ok && o.Op == "open" {
			m["ret"] = t // the registry was not used after that
		}
		mu.Unlock()
		record(m)
	}()
	switch o.Op {
	case "register":
		if o.Driver == 0 {
			accounting.Register(o.Name, nil)
		} else {
			accounting.Register(o.Name, drivers[o.Driver])
		}
		m["res"] = "ok"
	case "open":
		x, err := accounting.Open(o.Source)
		if err != nil {
			m["res"] = "error"
			if x != nil {
				m["res"] = "both"
			}
			return nil
		}
		m["res"] = "ok"
		m["by"], m["asked"] = madeBy(x)
		return x
	}
	return nil
}

var errFails = errors.New("the backend fails")

func errText(err error) string {
	switch err {
	case nil:
		return "nil"
	case errFails:
		return "its own"
	}
	return "error"
}

func txnList(l *accounting.Ledger, ts []*accounting.Transaction) []int {
	res := []int{}
	for _, t := range ts {
		n := -2
		if t == answerTxn {
			n = -1
		} else if t == nil {
			n = 0
		}
		for i := range l.Transactions {
			if l.Transactions[i] == t {
				n = i + 1
			}
		}
		res = append(res, n)
	}
	return res
}

func acctNumber(l *accounting.Ledger, a *accounting.Account) int {
	switch {
	case a == nil:
		return 0
	case a == answerAccount:
		return -1
	}
	for i := range l.Accounts {
		if l.Accounts[i] == a {
			return i + 1
		}
	}
	return -2
}

func txnNumber(l *accounting.Ledger, t *accounting.Transaction) int {
	if t == nil {
		return 0
	}
	return txnList(l, []*accounting.Transaction{t})[0]
}

// things are the account and the transaction given to an operation
func things(l *accounting.Ledger, o op) (txn accounting.Transaction, acct accounting.Account) {
	at := time.Unix(o.Txn.Time, 0)
	txn = accounting.Transaction{ID: mkID(o.Txn.ID), Time: at, Description: o.Txn.Desc, Splits: make([]*accounting.Split, len(o.Txn.Accs))}
	acct = accounting.Account{ID: mkID(o.Acct.ID), Name: o.Acct.Name, Code: o.Acct.Code}
	cur := &accounting.Currency{Name: "given", Precision: 3}
	if o.Txn.Time%2 == 0 {
		for i := range txn.Splits {
			s := &accounting.Split{ID: id(fmt.Sprint(i)), Time: &at, Value: accounting.Value{Amount: int64(i), Currency: cur}}
			if len(l.Accounts) > 0 {
				s.Account = l.Accounts[i%len(l.Accounts)]
			}
			s.Balance.Add(s.Value)
			txn.Splits[i] = s
		}
		if len(l.Accounts) > 0 {
			acct.Parent = l.Accounts[0]
			acct.Children = []*accounting.Account{l.Accounts[len(l.Accounts)-1], nil}
		}
		acct.Splits = txn.Splits
		acct.Level = 3
		acct.StartBalance.Add(accounting.Value{Amount: 7, Currency: cur})
	}
	return txn, acct
}

// ask uses an operation of a ledger, made by fake f
func ask(l *accounting.Ledger, f *fake, o op) M {
	if o.Clone {
		l = l.Clone()
	}
	f.calls = [][]string{}
	f.fail = o.Fail
	m := M{}
	txn, acct := things(l, o)
	givenTxn, givenAcct = things(l, o)
	switch o.Op {
	case "account":
		m["answer"] = []int{acctNumber(l, l.Account(mkID(o.ID)))}
		m["err"] = "nil"
	case "inacct":
		m["answer"] = txnList(l, l.TransactionsInAccount(mkID(o.ID)))
		m["err"] = "nil"
	case "interval":
		m["answer"] = txnList(l, l.TransactionsInInterval(time.Unix(o.T, 0), time.Unix(o.T2, 0)))
		m["err"] = "nil"
	case "newaccount":
		a, err := l.NewAccount(acct)
		m["answer"], m["err"] = []int{acctNumber(l, a)}, errText(err)
	case "editaccount":
		a, err := l.EditAccount(acct)
		m["answer"], m["err"] = []int{acctNumber(l, a)}, errText(err)
	case "newtransaction":
		t, err := l.NewTransaction(txn)
		m["answer"], m["err"] = []int{txnNumber(l, t)}, errText(err)
	case "edittransaction":
		t, err := l.EditTransaction(txn)
		m["answer"], m["err"] = []int{txnNumber(l, t)}, errText(err)
	case "flush":
		m["answer"], m["err"] = []int{}, errText(l.Flush())
	case "close":
		m["answer"], m["err"] = []int{}, errText(l.Close())
	case "refresh":
		l.Refresh()
		m["answer"], m["err"] = []int{}, "nil"
	}
	m["calls"] = f.calls
	return m
}

// asker: a driver which remembers its connection
type asker struct {
	*fakeDriver
	f *fake
}

func (a *asker) Open(url string, b *accounting.Backend) (accounting.Connection, error) {
	c, err := a.fakeDriver.Open(url, b)
	if err == nil {
		a.f = c.(interface{ fakeConn() *fake }).fakeConn()
	}
	return c, err
}

func main() {
	data, err := ioutil.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	var in struct {
		Registry *script
		Asks     []struct {
			Driver driverIn
			Ops    []op
		}
	}
	if err := json.Unmarshal(data, &in); err != nil {
		panic(err)
	}
	out := json.NewEncoder(os.Stdout)
	if in.Registry != nil {
		for _, d := range in.Registry.Drivers {
			drivers[d.ID] = &fakeDriver{d}
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, th := range in.Registry.Threads {
			wg.Add(1)
			go func(th []op) {
				defer wg.Done()
				<-start
				for _, o := range th {
					do(o)
				}
			}(th)
		}
		close(start)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
			out.Encode(M{"res": "ok", "events": events})
		case <-time.After(20 * time.Second):
			out.Encode(M{"res": "hang"})
		}
		return
	}
	res := []M{}
	for i, a := range in.Asks {
		d := &asker{fakeDriver: &fakeDriver{a.Driver}}
		name := fmt.Sprintf("ask%d", i)
		accounting.Register(name, d)
		l, err := accounting.Open(name + ":x")
		if err != nil {
			res = append(res, M{"res": "error"})
			continue
		}
		order := []string{} // transactions are sorted by time
		for _, t := range l.Transactions {
			order = append(order, t.Description)
		}
		as := []M{}
		for _, o := range a.Ops {
			as = append(as, ask(l, d.f, o))
		}
		res = append(res, M{"res": "ok", "asks": as, "order": order})
	}
	out.Encode(M{"res": "ok", "ledgers": res})
}
