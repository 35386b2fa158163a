// Command verifharness executes scripts of operations on the real code of
// cespedes/accounting and reports what it did, as JSON lines.
//
// It is built inside the module of /repo through "go build -overlay".
// Cases are read from standard input, results are written to file descriptor 3.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/cespedes/accounting"
	"github.com/cespedes/accounting/backend/ledger"
	_ "github.com/cespedes/accounting/backend/postgres"
	_ "github.com/cespedes/accounting/backend/txtdb"
)

type M = map[string]interface{}

type tp struct{ T, P int }

const U = accounting.U

// ---------------------------------------------------------------------------
// Projection of a ledger

func unix(t time.Time) int64 { return t.Unix() }

func timeOut(t time.Time) interface{} {
	// seconds since 1970, and nanoseconds if any (there should be none)
	if t.Nanosecond() != 0 {
		return []int64{t.Unix(), int64(t.Nanosecond())}
	}
	return []int64{t.Unix()}
}

func idOut(id accounting.ID) (s string) {
	if id == nil {
		return ""
	}
	defer func() {
		if recover() != nil {
			s = "?"
		}
	}()
	return id.String()
}

type projector struct {
	l *accounting.Ledger
	c map[*accounting.Currency]int
	a map[*accounting.Account]int
}

func (p *projector) cur(c *accounting.Currency, amount int64) int {
	if c == nil {
		return 0
	}
	if i, ok := p.c[c]; ok {
		return i
	}
	if c == p.l.DefaultCurrency {
		return -1
	}
	if c.Name == "" {
		if amount == 0 {
			return 0
		}
		return -1
	}
	return -2
}

func (p *projector) val(v accounting.Value) []interface{} {
	return []interface{}{p.cur(v.Currency, v.Amount), strconv.FormatInt(v.Amount, 10)}
}

func (p *projector) bal(b accounting.Balance) []interface{} {
	r := []interface{}{}
	for _, v := range b {
		r = append(r, p.val(v))
	}
	return r
}

func curOut(c *accounting.Currency, comments []string) M {
	return M{"name": c.Name, "before": c.PrintBefore, "nospace": c.WithoutSpace, "thou": c.Thousand, "dec": c.Decimal,
		"prec": c.Precision, "isin": c.ISIN, "comments": strs(comments), "id": idOut(c.ID)}
}

func strs(s []string) []string {
	if s == nil {
		return []string{}
	}
	return append([]string{}, s...)
}

func newProjector(l *accounting.Ledger) *projector {
	p := &projector{l: l, c: make(map[*accounting.Currency]int), a: make(map[*accounting.Account]int)}
	for i, c := range l.Currencies {
		p.c[c] = i + 1
	}
	for i, a := range l.Accounts {
		p.a[a] = i + 1
	}
	return p
}

func (p *projector) acct(a *accounting.Account) int {
	if a == nil {
		return 0
	}
	if i, ok := p.a[a]; ok {
		return i
	}
	return -1
}

func project(l *accounting.Ledger) M {
	p := newProjector(l)
	where := make(map[*accounting.Split]tp)
	for i, t := range l.Transactions {
		for j, s := range t.Splits {
			where[s] = tp{i + 1, j + 1}
		}
	}
	comments := func(x interface{}) []string { return strs(l.Comments[x]) }
	accts := []M{}
	for _, a := range l.Accounts {
		kids := []int{}
		for _, c := range a.Children {
			kids = append(kids, p.acct(c))
		}
		posts := [][]int{}
		for _, s := range a.Splits {
			w := where[s]
			posts = append(posts, []int{w.T, w.P})
		}
		accts = append(accts, M{"full": a.FullName(), "name": a.Name, "parent": p.acct(a.Parent), "kids": kids, "level": a.Level,
			"code": a.Code, "comments": comments(a), "id": idOut(a.ID), "posts": posts, "start": p.bal(a.StartBalance)})
	}
	txns := []M{}
	for i, t := range l.Transactions {
		posts := []M{}
		for _, s := range t.Splits {
			m := M{"acct": p.acct(s.Account), "val": p.val(s.Value), "bal": p.bal(s.Balance), "comments": comments(s),
				"id": idOut(s.ID), "auto": s.ID == nil, "own": 0}
			if s.Transaction == t {
				m["own"] = i + 1
			}
			if s.Time != nil {
				m["time"] = timeOut(*s.Time)
			} else {
				m["time"] = nil
			}
			if v, ok := l.SplitPrices[s]; ok {
				m["price"] = p.val(v)
			}
			if v, ok := l.Assertions[s]; ok {
				m["asrt"] = p.val(v)
			}
			posts = append(posts, m)
		}
		txns = append(txns, M{"time": timeOut(t.Time), "desc": t.Description, "comments": comments(t), "id": idOut(t.ID), "posts": posts})
	}
	prices := []M{}
	for _, x := range l.Prices {
		prices = append(prices, M{"time": timeOut(x.Time), "cur": p.cur(x.Currency, 1), "val": p.val(x.Value), "auto": x.ID == nil,
			"id": idOut(x.ID), "comments": comments(x)})
	}
	currs := []M{}
	for _, c := range l.Currencies {
		currs = append(currs, curOut(c, comments(c)))
	}
	transfer := []int{}
	for i, a := range l.Accounts {
		if l.IsTransferAccount(a) {
			transfer = append(transfer, i+1)
		}
	}
	res := M{"accts": accts, "txns": txns, "prices": prices, "currs": currs, "transfer": transfer}
	dflt := 0
	if l.DefaultCurrency != nil {
		dflt = p.cur(l.DefaultCurrency, 1)
		if dflt == -1 {
			res["unnamed"] = curOut(l.DefaultCurrency, comments(l.DefaultCurrency))
		}
	}
	res["dflt"] = dflt
	if dflt != -1 { // there can be amounts of the unnamed currency all the same
		for _, t := range l.Transactions {
			for _, s := range t.Splits {
				if c := s.Value.Currency; s.Value.Amount != 0 && c != nil && p.cur(c, 1) == -1 {
					res["unnamed"] = curOut(c, []string{})
				}
			}
		}
	}
	// entries of the maps that belong to nothing in the ledger
	stray := 0
	known := make(map[interface{}]bool)
	for _, a := range l.Accounts {
		known[a] = true
	}
	for _, t := range l.Transactions {
		known[t] = true
		for _, s := range t.Splits {
			known[s] = true
		}
	}
	for _, c := range l.Currencies {
		known[c] = true
	}
	for _, x := range l.Prices {
		known[x] = true
	}
	if l.DefaultCurrency != nil {
		known[l.DefaultCurrency] = true
	}
	for x, c := range l.Comments {
		if !known[x] && len(c) > 0 {
			if cu, ok := x.(*accounting.Currency); ok && cu.Name == "" {
				continue // comments of the unnamed currency when it is not the default one any more
			}
			stray++
		}
	}
	res["stray"] = stray
	return res
}

// ---------------------------------------------------------------------------
// Identity of all the objects a ledger is made of

type heap struct {
	ids map[interface{}]int
}

func (h *heap) id(x interface{}) int {
	if i, ok := h.ids[x]; ok {
		return i
	}
	i := len(h.ids) + 1
	h.ids[x] = i
	return i
}

// objects returns the objects of each kind that can be reached from the ledger.
func (h *heap) objects(l *accounting.Ledger) M {
	acc := map[int]bool{}
	txn := map[int]bool{}
	spl := map[int]bool{}
	cur := map[int]bool{}
	pri := map[int]bool{}
	tim := map[int]bool{}
	sl := map[int]bool{} // backing arrays of slices
	mp := map[int]bool{} // maps are compared with writes, not here
	addCur := func(c *accounting.Currency) {
		if c != nil {
			cur[h.id(c)] = true
		}
	}
	addVal := func(v accounting.Value) { addCur(v.Currency) }
	addBal := func(b accounting.Balance) {
		if cap(b) > 0 {
			sl[h.id(&b[:1][0])] = true
		}
		for _, v := range b {
			addVal(v)
		}
	}
	var addAcc func(a *accounting.Account)
	var addTxn func(t *accounting.Transaction)
	var addSpl func(s *accounting.Split)
	addAcc = func(a *accounting.Account) {
		if a == nil || acc[h.id(a)] {
			return
		}
		acc[h.id(a)] = true
		addAcc(a.Parent)
		if cap(a.Children) > 0 {
			sl[h.id(&a.Children[:1][0])] = true
		}
		for _, c := range a.Children {
			addAcc(c)
		}
		if cap(a.Splits) > 0 {
			sl[h.id(&a.Splits[:1][0])] = true
		}
		for _, s := range a.Splits {
			addSpl(s)
		}
		addBal(a.StartBalance)
	}
	addTxn = func(t *accounting.Transaction) {
		if t == nil || txn[h.id(t)] {
			return
		}
		txn[h.id(t)] = true
		if cap(t.Splits) > 0 {
			sl[h.id(&t.Splits[:1][0])] = true
		}
		for _, s := range t.Splits {
			addSpl(s)
		}
	}
	addSpl = func(s *accounting.Split) {
		if s == nil || spl[h.id(s)] {
			return
		}
		spl[h.id(s)] = true
		addAcc(s.Account)
		addTxn(s.Transaction)
		if s.Time != nil {
			tim[h.id(s.Time)] = true
		}
		addVal(s.Value)
		addBal(s.Balance)
	}
	if cap(l.Accounts) > 0 {
		sl[h.id(&l.Accounts[:1][0])] = true
	}
	for _, a := range l.Accounts {
		addAcc(a)
	}
	if cap(l.Transactions) > 0 {
		sl[h.id(&l.Transactions[:1][0])] = true
	}
	for _, t := range l.Transactions {
		addTxn(t)
	}
	if cap(l.Currencies) > 0 {
		sl[h.id(&l.Currencies[:1][0])] = true
	}
	for _, c := range l.Currencies {
		addCur(c)
	}
	if cap(l.Prices) > 0 {
		sl[h.id(&l.Prices[:1][0])] = true
	}
	for _, p := range l.Prices {
		pri[h.id(p)] = true
		addCur(p.Currency)
		addVal(p.Value)
	}
	for x, c := range l.Comments {
		if len(c) == 0 {
			continue
		}
		sl[h.id(&c[:1][0])] = true
		switch y := x.(type) {
		case *accounting.Account:
			addAcc(y)
		case *accounting.Transaction:
			addTxn(y)
		case *accounting.Split:
			addSpl(y)
		case *accounting.Currency:
			addCur(y)
		case *accounting.Price:
			pri[h.id(y)] = true
		}
	}
	for s, v := range l.Assertions {
		addSpl(s)
		addVal(v)
	}
	for s, v := range l.SplitPrices {
		addSpl(s)
		addVal(v)
	}
	addCur(l.DefaultCurrency)
	out := func(m map[int]bool) []int {
		r := []int{}
		for i := range m {
			r = append(r, i)
		}
		sort.Ints(r)
		return r
	}
	_ = mp
	return M{"accounts": out(acc), "transactions": out(txn), "postings": out(spl), "currencies": out(cur), "prices": out(pri),
		"times": out(tim), "arrays": out(sl)}
}

// ---------------------------------------------------------------------------
// Running scripts

type op struct {
	Op    string
	Slot  string
	To    string
	Src   string
	File  string
	I, J  int
	K     string
	Cur   int
	Cur2  int
	Amt   int64
	Time  *int64
	Time2 *int64
	Text  string
	Spec  json.RawMessage
	Ops   [][]op // for "par"
	N     int
	Quiet bool
	Items []valueItem
	Curs  []curIn
}

type script struct {
	ID  int
	Ops []op
}

type world struct {
	mu    sync.Mutex
	slots map[string]*accounting.Ledger
	heap  *heap
}

func (w *world) get(s string) *accounting.Ledger {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.slots[s]
}
func (w *world) put(s string, l *accounting.Ledger) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.slots[s] = l
}

func tm(s *int64) time.Time {
	if s == nil {
		return time.Time{}
	}
	return time.Unix(*s, 0).UTC()
}

func currency(l *accounting.Ledger, ref int) *accounting.Currency {
	if ref > 0 && ref <= len(l.Currencies) {
		return l.Currencies[ref-1]
	}
	if ref == -1 {
		return l.DefaultCurrency
	}
	return nil
}

func safe(f func() M) (res M) {
	defer func() {
		if r := recover(); r != nil {
			res = M{"res": "panic", "err": fmt.Sprint(r)}
		}
	}()
	return f()
}

func txnIndex(l *accounting.Ledger, ts []*accounting.Transaction) []int {
	r := []int{}
	for _, t := range ts {
		k := 0
		for i, x := range l.Transactions {
			if x == t {
				k = i + 1
				break
			}
		}
		r = append(r, k)
	}
	return r
}

var logMu sync.Mutex

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}
func (s *syncBuf) take() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.b.String()
	s.b.Reset()
	return r
}

var logs syncBuf

func (w *world) run(o op) M {
	return safe(func() M { return w.run1(o) })
}

func errOut(err error) M {
	if err != nil {
		return M{"res": "error", "err": err.Error()}
	}
	return M{"res": "ok"}
}

func (w *world) run1(o op) M {
	l := w.get(o.Slot)
	switch o.Op {
	case "open":
		if !o.Quiet {
			logs.take()
		}
		led, err := accounting.Open(o.Src)
		r := errOut(err)
		if err == nil {
			w.put(o.Slot, led)
		}
		if !o.Quiet {
			r["log"] = logs.take()
		}
		return r
	case "write": // write a file
		return errOut(ioutil.WriteFile(o.File, []byte(o.Text), 0644))
	}
	if f, ok := pureOps[o.Op]; ok {
		return f(o)
	}
	if o.Op == "par" {
		res := make([][]M, len(o.Ops))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range o.Ops {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for _, x := range o.Ops[i] {
					res[i] = append(res[i], w.run(x))
				}
			}(i)
		}
		close(start)
		wg.Wait()
		return M{"res": "ok", "par": res}
	}
	if l == nil {
		return M{"res": "none"}
	}
	if (o.Op == "balance" || o.Op == "inacct" || o.Op == "account") && o.I > len(l.Accounts) {
		return M{"res": "none"}
	}
	switch o.Op {
	case "proj":
		r := project(l)
		r["res"] = "ok"
		return r
	case "fill":
		return errOut(l.Fill())
	case "refresh":
		l.Refresh()
		return M{"res": "ok"}
	case "close":
		return errOut(l.Close())
	case "flush":
		return errOut(l.Flush())
	case "clone":
		w.put(o.To, l.Clone())
		return M{"res": "ok"}
	case "export":
		var b bytes.Buffer
		ledger.Export(&b, l)
		if o.File != "" {
			if err := ioutil.WriteFile(o.File, b.Bytes(), 0644); err != nil {
				return M{"res": "harness", "err": err.Error()}
			}
		}
		return M{"res": "ok", "text": b.String()}
	case "print": // everything that can be printed
		var n int
		for _, t := range l.Transactions {
			for _, s := range t.Splits {
				n += len(s.Value.String()) + len(s.Value.FullString()) + len(s.Balance.String()) + len(s.Account.FullName())
			}
		}
		for _, p := range l.Prices {
			n += len(p.Value.String()) + len(p.Value.FullString())
		}
		return M{"res": "ok"}
	case "balance": // of account I at Time
		when := tm(o.Time)
		if ss := l.Accounts[o.I-1].Splits; o.J > 0 && len(ss) > 0 { // when one of its postings is
			when = *ss[o.J%len(ss)].Time
		}
		b := l.GetBalance(l.Accounts[o.I-1], when)
		return M{"res": "ok", "bal": newProjector(l).bal(b)}
	case "inacct": // transactions in account I
		return M{"res": "ok", "txns": txnIndex(l, l.TransactionsInAccount(l.Accounts[o.I-1].ID))}
	case "interval":
		from, to := tm(o.Time), tm(o.Time2)
		if n := len(l.Transactions); o.J > 0 && n > 0 { // between two transactions
			from, to = l.Transactions[o.J%n].Time, l.Transactions[o.I%n].Time
		}
		return M{"res": "ok", "txns": txnIndex(l, l.TransactionsInInterval(from, to))}
	case "account": // by ID
		a := l.Account(l.Accounts[o.I-1].ID)
		return M{"res": "ok", "acct": newProjector(l).acct(a)}
	case "convert":
		from, to, when := currency(l, o.Cur), currency(l, o.Cur2), tm(o.Time)
		if n := len(l.Prices); o.J > 0 && n > 0 { // with one of the prices, at its date
			from, to, when = l.Prices[o.J%n].Currency, l.Prices[o.J%n].Value.Currency, l.Prices[o.J%n].Time
		}
		v, err := l.Convert(accounting.Value{Amount: o.Amt, Currency: from}, when, to)
		r := errOut(err)
		r["val"] = newProjector(l).val(v)
		return r
	case "heap":
		r := w.heap.objects(l)
		r["res"] = "ok"
		return r
	case "getcurrency":
		c, isNew := l.GetCurrency(o.Text)
		p := newProjector(l)
		return M{"res": "ok", "cur": p.cur(c, 1), "new": isNew, "n": len(l.Currencies)}
	case "mutate":
		return mutate(l, o)
	case "edit":
		return doEdit(l, o)
	}
	return M{"res": "harness", "err": "unknown op " + o.Op}
}

// mutate changes something in a ledger, the way its users could.
func mutate(l *accounting.Ledger, o op) M {
	pick := func(n int) int {
		if n == 0 {
			return -1
		}
		return o.I % n
	}
	done := M{"res": "ok"}
	none := M{"res": "none"}
	var split *accounting.Split
	if i := pick(len(l.Transactions)); i >= 0 {
		if t := l.Transactions[i]; len(t.Splits) > 0 {
			split = t.Splits[o.J%len(t.Splits)]
		}
	}
	switch o.K {
	case "acct.name":
		l.Accounts[pick(len(l.Accounts))].Name += "*"
	case "acct.code":
		l.Accounts[pick(len(l.Accounts))].Code += "*"
	case "acct.append":
		l.Accounts = append(l.Accounts[:len(l.Accounts):cap(l.Accounts)], &accounting.Account{Name: "New*"})
	case "acct.swap":
		n := len(l.Accounts)
		l.Accounts[0], l.Accounts[n-1] = l.Accounts[n-1], l.Accounts[0]
	case "acct.start":
		a := l.Accounts[pick(len(l.Accounts))]
		a.StartBalance.Add(accounting.Value{Amount: 5, Currency: l.DefaultCurrency})
	case "acct.splits":
		a := l.Accounts[pick(len(l.Accounts))]
		if len(a.Splits) == 0 {
			return none
		}
		a.Splits = append(a.Splits[:0], a.Splits[1:]...)
	case "acct.children":
		a := l.Accounts[pick(len(l.Accounts))]
		if len(a.Children) == 0 {
			return none
		}
		a.Children[0] = l.Accounts[len(l.Accounts)-1]
	case "txn.desc":
		if i := pick(len(l.Transactions)); i >= 0 {
			l.Transactions[i].Description += "*"
		} else {
			return none
		}
	case "txn.time":
		if i := pick(len(l.Transactions)); i >= 0 {
			l.Transactions[i].Time = l.Transactions[i].Time.Add(time.Hour)
		} else {
			return none
		}
	case "txn.remove":
		if i := pick(len(l.Transactions)); i >= 0 {
			l.Transactions = append(l.Transactions[:i], l.Transactions[i+1:]...)
		} else {
			return none
		}
	case "txn.splits":
		if split == nil {
			return none
		}
		t := l.Transactions[pick(len(l.Transactions))]
		t.Splits = append(t.Splits[:0], t.Splits[1:]...)
	case "split.value":
		if split == nil {
			return none
		}
		split.Value.Amount += 7
	case "split.time":
		if split == nil || split.Time == nil {
			return none
		}
		*split.Time = split.Time.Add(time.Minute)
	case "split.balance":
		if split == nil {
			return none
		}
		if len(split.Balance) > 0 {
			split.Balance[0].Amount += 3
		}
		split.Balance.Add(accounting.Value{Amount: 9, Currency: l.DefaultCurrency})
	case "split.account":
		if split == nil {
			return none
		}
		split.Account = l.Accounts[0]
	case "split.comment":
		if split == nil {
			return none
		}
		l.Comments[split] = append(l.Comments[split], "new*")
	case "comment.edit":
		ok := false
		for x, c := range l.Comments {
			if len(c) > 0 {
				c[0] += "*"
				ok = true
			}
			_ = x
		}
		if !ok {
			return none
		}
	case "comment.clear":
		for x := range l.Comments {
			delete(l.Comments, x)
		}
	case "assert.clear":
		for x := range l.Assertions {
			delete(l.Assertions, x)
		}
	case "splitprice.clear":
		for x := range l.SplitPrices {
			delete(l.SplitPrices, x)
		}
	case "assert.set":
		if split == nil {
			return none
		}
		l.Assertions[split] = split.Value
	case "cur.style":
		if i := pick(len(l.Currencies)); i >= 0 {
			c := l.Currencies[i]
			c.Precision = (c.Precision + 1) % 8
			c.Thousand += "'"
			c.PrintBefore = !c.PrintBefore
		} else if l.DefaultCurrency != nil {
			l.DefaultCurrency.Precision = (l.DefaultCurrency.Precision + 1) % 8
		} else {
			return none
		}
	case "cur.name":
		if l.DefaultCurrency != nil {
			l.DefaultCurrency.Name += "Z"
		} else if i := pick(len(l.Currencies)); i >= 0 {
			l.Currencies[i].Name += "Z"
		} else {
			return none
		}
	case "cur.new":
		l.GetCurrency("NEWCUR")
	case "cur.default":
		l.DefaultCurrency = nil
	case "price.value":
		if i := pick(len(l.Prices)); i >= 0 {
			l.Prices[i].Value.Amount++
		} else {
			return none
		}
	case "price.remove":
		if i := pick(len(l.Prices)); i >= 0 {
			l.Prices = append(l.Prices[:i], l.Prices[i+1:]...)
		} else {
			return none
		}
	case "fill":
		return errOut(l.Fill())
	default:
		return M{"res": "harness", "err": "unknown mutation " + o.K}
	}
	return done
}

type simpleID string

func (s simpleID) String() string { return string(s) }

// values by the name of their currency
type namedVal struct {
	Cur string
	Amt int64
}

func (v *namedVal) value(l *accounting.Ledger) (r accounting.Value) {
	if v == nil {
		return r
	}
	for _, c := range l.Currencies {
		if c.Name == v.Cur {
			return accounting.Value{Amount: v.Amt, Currency: c}
		}
	}
	panic("harness: no currency " + v.Cur)
}

func accountNamed(l *accounting.Ledger, full string) *accounting.Account {
	for _, a := range l.Accounts {
		if !l.IsTransferAccount(a) && a.FullName() == full {
			return a
		}
	}
	panic("harness: no account " + full)
}

type newPost struct {
	Acct             string
	Time             *int64
	Val, Price, Asrt *namedVal
}

type newTxn struct {
	Time  int64
	Desc  string
	Posts []newPost
}

func setNamed(m *map[*accounting.Split]accounting.Value, l *accounting.Ledger, s *accounting.Split, v *namedVal) {
	if v == nil {
		delete(*m, s)
		return
	}
	if *m == nil {
		*m = make(map[*accounting.Split]accounting.Value)
	}
	(*m)[s] = v.value(l)
}

func buildPost(l *accounting.Ledger, p newPost, id string) *accounting.Split {
	s := &accounting.Split{ID: simpleID(id), Account: accountNamed(l, p.Acct), Value: p.Val.value(l)}
	if p.Time != nil {
		x := tm(p.Time)
		s.Time = &x
	}
	if p.Price != nil {
		setNamed(&l.SplitPrices, l, s, p.Price)
	}
	if p.Asrt != nil {
		setNamed(&l.Assertions, l, s, p.Asrt)
	}
	return s
}

func buildTxn(l *accounting.Ledger, n newTxn, id string) *accounting.Transaction {
	t := &accounting.Transaction{ID: simpleID(id + ":1"), Time: tm(&n.Time), Description: n.Desc}
	for i, p := range n.Posts {
		t.Splits = append(t.Splits, buildPost(l, p, fmt.Sprintf("%s:%d", id, i+2)))
	}
	return t
}

// an edit of a ledger, the way its users could make it
type edit struct {
	Op    string
	ID    string
	T, P  int
	Time  int64
	Acct  string
	Cur   string
	Val   *namedVal
	Txn   newTxn
	Post  newPost
	Front bool
	Name  string
	Code  string
	To    string
}

func doEdit(l *accounting.Ledger, o op) M {
	var e edit
	if err := json.Unmarshal(o.Spec, &e); err != nil {
		return M{"res": "harness", "err": err.Error()}
	}
	var t *accounting.Transaction
	var s *accounting.Split
	if e.T > 0 {
		t = l.Transactions[e.T-1]
		if e.P > 0 {
			// transfer postings, which have no ID, do not count
			k := 0
			for i, x := range t.Splits {
				if x.ID != nil {
					k++
					if k == e.P {
						s, e.P = x, i+1
						break
					}
				}
			}
		}
	}
	switch e.Op {
	case "add":
		n := buildTxn(l, e.Txn, e.ID)
		if e.Front {
			l.Transactions = append([]*accounting.Transaction{n}, l.Transactions...)
		} else {
			l.Transactions = append(l.Transactions, n)
		}
	case "remove":
		l.Transactions = append(l.Transactions[:e.T-1:e.T-1], l.Transactions[e.T:]...)
	case "value":
		s.Value = e.Val.value(l)
	case "time":
		t.Time = tm(&e.Time)
	case "ptime":
		x := tm(&e.Time)
		s.Time = &x
	case "acct":
		s.Account = accountNamed(l, e.Acct)
	case "asrt":
		setNamed(&l.Assertions, l, s, e.Val)
	case "price":
		setNamed(&l.SplitPrices, l, s, e.Val)
	case "addpost":
		t.Splits = append(t.Splits, buildPost(l, e.Post, e.ID+":1"))
	case "delpost":
		t.Splits = append(t.Splits[:e.P-1:e.P-1], t.Splits[e.P:]...)
	case "newacct": // Name, under the account To (or under none)
		a := &accounting.Account{ID: simpleID(e.ID + ":1"), Name: e.Name, Code: e.Code}
		if e.To != "" {
			a.Parent = accountNamed(l, e.To)
		}
		n := len(l.Accounts) // before the transfer account, so that this is still the last one
		for i := range l.Accounts {
			if l.IsTransferAccount(l.Accounts[i]) {
				n = i
			}
		}
		l.Accounts = append(l.Accounts[:n:n], append([]*accounting.Account{a}, l.Accounts[n:]...)...)
	case "move":
		a := accountNamed(l, e.Acct)
		if e.To == "" {
			a.Parent = nil
		} else {
			a.Parent = accountNamed(l, e.To)
		}
	case "rename":
		accountNamed(l, e.Acct).Name = e.Name
	case "newprice":
		v := namedVal{Cur: e.Cur}
		l.Prices = append(l.Prices, &accounting.Price{ID: simpleID(e.ID + ":1"), Time: tm(&e.Time), Currency: v.value(l).Currency, Value: e.Val.value(l)})
	case "delprice":
		k := 0
		for i, p := range l.Prices {
			if p.ID != nil {
				k++
				if k == e.P {
					l.Prices = append(l.Prices[:i:i], l.Prices[i+1:]...)
					return M{"res": "ok"}
				}
			}
		}
		return M{"res": "harness", "err": "no such price"}
	default:
		return M{"res": "harness", "err": "unknown edit " + e.Op}
	}
	return M{"res": "ok"}
}

var pureOps = map[string]func(op) M{}

func main() {
	log.SetFlags(0)
	log.SetOutput(&logs)
	out := os.NewFile(3, "results")
	if out == nil {
		panic(errors.New("no file descriptor 3"))
	}
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(strings.TrimSpace(string(line))) > 0 {
			var s script
			if e := json.Unmarshal(line, &s); e != nil {
				panic(e)
			}
			w := &world{slots: make(map[string]*accounting.Ledger), heap: &heap{ids: make(map[interface{}]int)}}
			enc.Encode(M{"id": s.ID, "begin": true})
			res := []M{}
			for _, o := range s.Ops {
				res = append(res, w.run(o))
			}
			if e := enc.Encode(M{"id": s.ID, "out": res}); e != nil {
				panic(e)
			}
		}
		if err == io.EOF {
			return
		}
		if err != nil {
			panic(err)
		}
	}
}
