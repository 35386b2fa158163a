From bbd35da3e721647e64eac5942c60df71e2659132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:13 +0000
Subject: [PATCH 01/58] fix: accept thousands marks after the first one in a
 currency, reject incomplete last groups

---
 backend/ledger/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 1973619..fd1a87f 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -544,7 +544,7 @@ done2:
 		}
 		if value.Currency.Thousand == string(c) || (value.Currency.Thousand == "" && value.Currency.Decimal != "" && value.Currency.Decimal != string(c)) {
 			value.Currency.Thousand = string(c)
-			if (thousandPos == -1 && i > 3) || i-thousandPos != 4 || decimalPos > -1 {
+			if (thousandPos == -1 && i > 3) || (thousandPos > -1 && i-thousandPos != 4) || decimalPos > -1 {
 				return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
 			}
 			thousandPos = i
@@ -588,6 +588,9 @@ done2:
 	if punct != "" {
 		return value, fmt.Errorf("syntax error: punctuation '%s' can be a thousand or a decimal", punct), newCurrency
 	}
+	if thousandPos > -1 && decimalPos == -1 && len(sAmount)-thousandPos != 4 {
+		return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
+	}
 	shift := 0
 	if decimalPos == -1 {
 		shift = 8
-- 
2.43.0


From 79143d94c6432f36ae32d2f281d01a1acef76627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 02/58] fix: accept ' as a mark in amounts written after their
 currency

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index fd1a87f..526fca1 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -473,7 +473,7 @@ func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
 		// first currency, then amount
 		value.Currency.PrintBefore = true
 		for i := len(s) - 1; i >= 0; i-- {
-			if !strings.ContainsRune("-+0123456789.,_", rune(s[i])) {
+			if !strings.ContainsRune("-+0123456789.,_'", rune(s[i])) {
 				if !unicode.IsSpace(rune(s[i])) {
 					value.Currency.WithoutSpace = true
 				}
-- 
2.43.0


From 84d55d284aab7749e7e9477d4c2ed1b7261fdd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:15 +0000
Subject: [PATCH 03/58] fix: do not give a currency the precision of a rejected
 amount

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 526fca1..9bfa7a9 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -596,7 +596,7 @@ done2:
 		shift = 8
 	} else {
 		shift = len(sAmount) - decimalPos - 1
-		if newCurrency {
+		if newCurrency && shift <= 8 {
 			value.Currency.Precision = shift
 		}
 		shift = 8 - shift
-- 
2.43.0


From f98ef560fead89d9cce4154e8b463dd0359168e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:12 +0000
Subject: [PATCH 04/58] fix: take the precision of a currency from its first
 amount even if a price named it before

---
 backend/ledger/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 9bfa7a9..01a1f8a 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -509,6 +509,7 @@ done:
 		l.ledger.Currencies = append(l.ledger.Currencies, value.Currency)
 	}
 done2:
+	firstAmount := value.Currency.Decimal == ""
 	var sign int64 = 1
 	if sAmount[0] == '-' {
 		sign = -1
@@ -596,7 +597,7 @@ done2:
 		shift = 8
 	} else {
 		shift = len(sAmount) - decimalPos - 1
-		if newCurrency && shift <= 8 {
+		if firstAmount && shift <= 8 {
 			value.Currency.Precision = shift
 		}
 		shift = 8 - shift
-- 
2.43.0


From 955e1b7c735a62a735cbe3ac3989ef4731188585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:13 +0000
Subject: [PATCH 05/58] fix: reject amounts too large to be stored instead of
 wrapping around

---
 backend/ledger/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 01a1f8a..0aef56f 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"math/big"
 	"os"
 	"path"
@@ -527,6 +528,9 @@ done2:
 	}
 	for i, c := range sAmount {
 		if c >= '0' && c <= '9' {
+			if value.Amount > (math.MaxInt64-int64(c-'0'))/10 {
+				return value, errors.New("syntax error: amount too large"), newCurrency
+			}
 			value.Amount *= 10
 			value.Amount += int64(c - '0')
 			continue
@@ -606,6 +610,9 @@ done2:
 		return value, fmt.Errorf("syntax error: too many decimal numbers"), newCurrency
 	}
 	for i := 0; i < shift; i++ {
+		if value.Amount > math.MaxInt64/10 {
+			return value, errors.New("syntax error: amount too large"), newCurrency
+		}
 		value.Amount *= 10
 	}
 	value.Amount *= sign
-- 
2.43.0


From 63534b3415a2ff101abe30d4a1d5500a41e94f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:15 +0000
Subject: [PATCH 06/58] fix: report journals that cannot be read when opening
 them

---
 backend/ledger/ledger.go | 4 +++-
 backend/ledger/parser.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 9c27f33..c19594d 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -30,7 +30,9 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.file = url.Path
 	conn.backend = backend
 	conn.ledger = backend.Ledger
-	conn.readJournal()
+	if err := conn.readJournal(); err != nil {
+		return nil, err
+	}
 	return conn, nil
 }
 
diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 0aef56f..89e940a 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -189,7 +189,9 @@ func (l *ledgerConnection) readJournal() error {
 	l.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
 	l.ledger.DefaultCurrency = nil
 	s := NewScanner()
-	s.NewFile(l.file)
+	if err := s.NewFile(l.file); err != nil {
+		return err
+	}
 
 	lastLine := lineNone
 	for {
-- 
2.43.0


From 95a88eb3a77430cfa22af69907f899bbfddb5ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:38 +0000
Subject: [PATCH 07/58] fix: reject unit prices whose total is too large to be
 stored

---
 backend/ledger/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 89e940a..7c6ca7d 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -408,6 +408,10 @@ func (l *ledgerConnection) readJournal() error {
 					k := big.NewInt(s.Value.Amount)
 					k.Mul(k, big.NewInt(value.Amount))
 					k.Quo(k, big.NewInt(accounting.U))
+					if !k.IsInt64() {
+						log.Printf("%s:%d: total price too large\n", line.Filename, line.LineNum)
+						continue
+					}
 					value.Amount = k.Int64()
 				}
 				l.ledger.SplitPrices[s] = value
-- 
2.43.0


From b2adf1239aba1c6c4b737fdd98afce023d84139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 08/58] fix: Clone keeps currencies that are not in
 Ledger.Currencies

---
 accounting.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/accounting.go b/accounting.go
index 002612c..5ec5128 100644
--- a/accounting.go
+++ b/accounting.go
@@ -191,6 +191,24 @@ func (l *Ledger) Clone() *Ledger {
 	for _, p := range l.Prices {
 		mapPrices[p] = new(Price)
 	}
+	// Some currencies are in use without being in l.Currencies
+	// (an unnamed default currency, for example)
+	cloneCurrency := func(c *Currency) {
+		if c != nil && mapCurrencies[c] == nil {
+			mapCurrencies[c] = new(Currency)
+			*mapCurrencies[c] = *c
+		}
+	}
+	cloneCurrency(l.DefaultCurrency)
+	for s := range mapSplits {
+		cloneCurrency(s.Value.Currency)
+		cloneCurrency(l.Assertions[s].Currency)
+		cloneCurrency(l.SplitPrices[s].Currency)
+	}
+	for p := range mapPrices {
+		cloneCurrency(p.Currency)
+		cloneCurrency(p.Value.Currency)
+	}
 
 	res := new(Ledger)
 	res.connection = l.connection
-- 
2.43.0


From ea840322d5936475e12cb97913dc37d34ca348b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:40 +0000
Subject: [PATCH 09/58] fix: Clone copies comments

---
 accounting.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 5ec5128..0061dfc 100644
--- a/accounting.go
+++ b/accounting.go
@@ -291,7 +291,31 @@ func (l *Ledger) Clone() *Ledger {
 		np.Value.Currency = mapCurrencies[p.Value.Currency]
 	}
 	res.Comments = make(map[interface{}][]string)
-	// TODO: Comments are not deep-copied (I have to deal with interface{})
+	for where, comments := range l.Comments {
+		comments = append([]string(nil), comments...)
+		switch x := where.(type) {
+		case *Account:
+			if n := mapAccounts[x]; n != nil {
+				res.Comments[n] = comments
+			}
+		case *Transaction:
+			if n := mapTransactions[x]; n != nil {
+				res.Comments[n] = comments
+			}
+		case *Split:
+			if n := mapSplits[x]; n != nil {
+				res.Comments[n] = comments
+			}
+		case *Currency:
+			if n := mapCurrencies[x]; n != nil {
+				res.Comments[n] = comments
+			}
+		case *Price:
+			if n := mapPrices[x]; n != nil {
+				res.Comments[n] = comments
+			}
+		}
+	}
 	res.Assertions = make(map[*Split]Value)
 	for s, v := range l.Assertions {
 		v.Currency = mapCurrencies[v.Currency]
-- 
2.43.0


From e204f01c9a34e34b9db2cd7b9ec1086bb54800f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:41 +0000
Subject: [PATCH 10/58] fix: give every ledger its own transfer account

---
 accounting.go | 24 ++++++++++++++----------
 types.go      |  3 ++-
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/accounting.go b/accounting.go
index 0061dfc..5af2001 100644
--- a/accounting.go
+++ b/accounting.go
@@ -327,6 +327,7 @@ func (l *Ledger) Clone() *Ledger {
 		res.SplitPrices[mapSplits[s]] = v
 	}
 	res.DefaultCurrency = mapCurrencies[l.DefaultCurrency]
+	res.transferAccount = mapAccounts[l.transferAccount]
 
 	return res
 }
@@ -661,7 +662,7 @@ func (l *Ledger) Fill() error {
 				break
 			}
 			l.Transactions[i].Splits[j].Balance = nil
-			if l.Transactions[i].Splits[j].Account == &TransferAccount {
+			if l.Transactions[i].Splits[j].Account == l.transferAccount {
 				l.Transactions[i].Splits[j] = l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1]
 				l.Transactions[i].Splits = l.Transactions[i].Splits[:len(l.Transactions[i].Splits)-1]
 			}
@@ -848,18 +849,21 @@ func (l *Ledger) Fill() error {
 	})
 
 	// Create fake splits in transactions with different times.
+	if l.transferAccount == nil {
+		l.transferAccount = &Account{Name: TransferAccount.Name}
+	}
 	for i := range l.Accounts {
-		if l.Accounts[i] == &TransferAccount {
+		if l.Accounts[i] == l.transferAccount {
 			goto transferAlreadyInAccounts
 		}
 	}
-	l.Accounts = append(l.Accounts, &TransferAccount)
+	l.Accounts = append(l.Accounts, l.transferAccount)
 transferAlreadyInAccounts:
 	for i := range l.Transactions {
 		for j := range l.Transactions[i].Splits {
 			if l.Transactions[i].Splits[j].Time != &l.Transactions[i].Time {
 				split1 := &Split{
-					Account:     &TransferAccount,
+					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
 					Time:        l.Transactions[i].Splits[j].Time,
 					Value: Value{
@@ -868,7 +872,7 @@ transferAlreadyInAccounts:
 					},
 				}
 				split2 := &Split{
-					Account:     &TransferAccount,
+					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
 					Time:        &l.Transactions[i].Time,
 					Value: Value{
@@ -878,17 +882,17 @@ transferAlreadyInAccounts:
 				}
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split1)
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split2)
-				TransferAccount.Splits = append(TransferAccount.Splits, split1)
-				TransferAccount.Splits = append(TransferAccount.Splits, split2)
+				l.transferAccount.Splits = append(l.transferAccount.Splits, split1)
+				l.transferAccount.Splits = append(l.transferAccount.Splits, split2)
 			}
 		}
 	}
-	sort.SliceStable(TransferAccount.Splits, func(i, j int) bool {
-		return TransferAccount.Splits[i].Time.Before(*TransferAccount.Splits[j].Time)
+	sort.SliceStable(l.transferAccount.Splits, func(i, j int) bool {
+		return l.transferAccount.Splits[i].Time.Before(*l.transferAccount.Splits[j].Time)
 	})
 
 	var b Balance
-	for _, s := range TransferAccount.Splits {
+	for _, s := range l.transferAccount.Splits {
 		b.Add(s.Value)
 		s.Balance = b.Dup()
 	}
diff --git a/types.go b/types.go
index f306178..4d459d3 100644
--- a/types.go
+++ b/types.go
@@ -16,6 +16,7 @@ type Ledger struct {
 	Assertions      map[*Split]Value         // Value that should be in an account after one split.
 	SplitPrices     map[*Split]Value         // Price for the value in a split, in another currency.
 	DefaultCurrency *Currency                // Default currency.
+	transferAccount *Account                 // This ledger's own copy of TransferAccount, set by Fill().
 	// Tags            map[interface{}][]Tag
 	// TagsByName      map[string][]struct {Value string; Place interface{}}
 }
@@ -62,7 +63,7 @@ type Account struct {
 }
 
 // TransferAccount is a special account used when a transaction has two or more splits with different times.
-// Ledger.Fill() automatically generates splits with this account.
+// Ledger.Fill() automatically generates splits with a copy of this account (a different one for each ledger).
 var TransferAccount Account = Account{
 	Name: "Assets:Transfer account",
 }
-- 
2.43.0


From cf2deeb4d2bd4d0ac81bb3f09b94540d78af4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:09 +0000
Subject: [PATCH 11/58] fix: Fill removes what a previous Fill generated before
 generating it again

---
 accounting.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/accounting.go b/accounting.go
index 5af2001..d708937 100644
--- a/accounting.go
+++ b/accounting.go
@@ -654,19 +654,27 @@ func (l *Ledger) Fill() error {
 	}
 	l.Accounts = newAccounts
 
+	// Remove prices generated by a previous Fill(), if any:
+	var prices []*Price
+	for _, p := range l.Prices {
+		if c := l.Comments[p]; p.ID == nil && len(c) == 1 && c[0] == "automatic" {
+			delete(l.Comments, p)
+			continue
+		}
+		prices = append(prices, p)
+	}
+	l.Prices = prices
+
 	// Remove splits with transferAccount, if any:
 	for i := range l.Transactions {
-		// TODO: this may be buggy!
-		for j := range l.Transactions[i].Splits {
-			if j >= len(l.Transactions[i].Splits) {
-				break
-			}
-			l.Transactions[i].Splits[j].Balance = nil
-			if l.Transactions[i].Splits[j].Account == l.transferAccount {
-				l.Transactions[i].Splits[j] = l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1]
-				l.Transactions[i].Splits = l.Transactions[i].Splits[:len(l.Transactions[i].Splits)-1]
+		var splits []*Split
+		for _, s := range l.Transactions[i].Splits {
+			s.Balance = nil
+			if s.Account != l.transferAccount {
+				splits = append(splits, s)
 			}
 		}
+		l.Transactions[i].Splits = splits
 	}
 	sort.SliceStable(l.Transactions, func(i, j int) bool {
 		return l.Transactions[i].Time.Before(l.Transactions[j].Time)
-- 
2.43.0


From 2726d35335a6bf17b5e608c06ce4f7536533e061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:10 +0000
Subject: [PATCH 12/58] fix: generate prices from splits in a defined order,
 and none from amounts of zero

---
 accounting.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index d708937..dbfb415 100644
--- a/accounting.go
+++ b/accounting.go
@@ -827,7 +827,16 @@ func (l *Ledger) Fill() error {
 	}
 
 	// Adding prices from splits
-	for s, v := range l.SplitPrices {
+	var pricedSplits []*Split
+	for _, t := range l.Transactions {
+		for _, s := range t.Splits {
+			if v, ok := l.SplitPrices[s]; ok && v.Amount != 0 && s.Value.Amount != 0 {
+				pricedSplits = append(pricedSplits, s)
+			}
+		}
+	}
+	for _, s := range pricedSplits {
+		v := l.SplitPrices[s]
 		price := new(Price)
 		price.Time = *s.Time
 		price.Currency = s.Value.Currency
-- 
2.43.0


From 92c6f80d68b5fb9e78c9d57e7ca8414df7cab419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:11 +0000
Subject: [PATCH 13/58] fix: a currency that is not in an account counts as
 zero in assertions

---
 accounting.go | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/accounting.go b/accounting.go
index dbfb415..1213f77 100644
--- a/accounting.go
+++ b/accounting.go
@@ -792,31 +792,19 @@ func (l *Ledger) Fill() error {
 				b.Add(s.Value)
 				s.Balance = b.Dup()
 				if a := l.Assertions[s]; a != (Value{}) {
-					if a.Amount == 0 && len(b) == 0 {
-						a = Value{}
-					} else if s.Value == (Value{}) && len(b) == 0 {
-						s.Value = a
-						s.Value.Amount = a.Amount
-						b.Add(s.Value)
-						s.Balance.Add(s.Value)
-						a = Value{}
-					}
+					current := Value{Currency: a.Currency} // zero if not in b
 					for _, v := range b {
 						if v.Currency == a.Currency {
-							if s.Value == (Value{}) {
-								s.Value = a
-								s.Value.Amount = a.Amount - v.Amount
-								b.Add(s.Value)
-								s.Balance.Add(s.Value)
-							} else if v.Amount != a.Amount {
-								return fmt.Errorf("%s: wrong assertion: %s != %s", s.ID, v, a)
-							}
-							a = Value{}
-							break
+							current = v
 						}
 					}
-					if a != (Value{}) {
-						return fmt.Errorf("%s: wrong assertion: %s", s.ID, a)
+					if s.Value == (Value{}) {
+						s.Value = a
+						s.Value.Amount = a.Amount - current.Amount
+						b.Add(s.Value)
+						s.Balance.Add(s.Value)
+					} else if current.Amount != a.Amount {
+						return fmt.Errorf("%s: wrong assertion: %s != %s", s.ID, current, a)
 					}
 				}
 			}
-- 
2.43.0


From 0b224acce5128b01c8ccc675e007f926841d5fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 14/58] fix: GetBalance before the first split returns the
 start balance

---
 accounting.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 1213f77..7ef3215 100644
--- a/accounting.go
+++ b/accounting.go
@@ -362,11 +362,14 @@ func (a Account) FullName() string {
 // If passed the zero value, it gets the current balance.
 func (l *Ledger) GetBalance(account *Account, when time.Time) Balance {
 	if len(account.Splits) == 0 {
-		return nil
+		return account.StartBalance
 	}
 	if (when == time.Time{}) {
 		return account.Splits[len(account.Splits)-1].Balance
 	}
+	if account.Splits[0].Time.After(when) {
+		return account.StartBalance
+	}
 	for i := 1; i < len(account.Splits); i++ {
 		if account.Splits[i].Time.After(when) {
 			return account.Splits[i-1].Balance
-- 
2.43.0


From b81c1b6fb03b93cc95c91279d0a8e6762468fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:45 +0000
Subject: [PATCH 15/58] fix: Convert does not go through the same currency
 twice

---
 accounting.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/accounting.go b/accounting.go
index 7ef3215..2f051eb 100644
--- a/accounting.go
+++ b/accounting.go
@@ -565,6 +565,15 @@ func insertAccount(where *[]*Account, account *Account) {
 
 // Convert returns a value to another currency.
 func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, error) {
+	if currency == nil {
+		return v, fmt.Errorf("could not convert %q: no currency to convert to", v)
+	}
+	return l.convert(v, when, currency, make(map[*Currency]bool))
+}
+
+// convert does the work for Convert, without going through the currencies in visited (it adds v.Currency to them).
+func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited map[*Currency]bool) (Value, error) {
+	visited[v.Currency] = true
 	if v.Currency == currency {
 		//fmt.Printf("Convert(%s,%s,%s) = %s (1)\n", v, when.Format("2006-01-02"), currency.Name, v)
 		return v, nil
@@ -594,7 +603,7 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 	}
 	if prevTime == (time.Time{}) && nextTime == (time.Time{}) { // no price match
 		for _, p := range l.Prices {
-			if p.Currency != v.Currency {
+			if p.Currency != v.Currency || visited[p.Value.Currency] {
 				continue
 			}
 			if p.Time.Before(when) {
@@ -612,11 +621,16 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 			//fmt.Printf("Convert(%s,%s,%s) = %s (3)\n", v, when.Format("2006-01-02"), currency.Name, v)
 			return v, fmt.Errorf("could not convert %q to %q", v, currency.Name)
 		}
-		nv, err := l.Convert(v, when, prevValue.Currency)
+		nv, err := l.convert(v, when, prevValue.Currency, visited)
 		if err != nil {
 			return nv, err
 		}
-		return l.Convert(nv, when, currency)
+		nv, err = l.convert(nv, when, currency, visited)
+		if err != nil {
+			// that was a dead end: try another currency
+			return l.convert(v, when, currency, visited)
+		}
+		return nv, nil
 	}
 	if nextTime == (time.Time{}) {
 		prevValue.Mul(v)
-- 
2.43.0


From d7b9c1db7f18d924ebb706a8e80ec1c0a995f897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:20 +0000
Subject: [PATCH 16/58] fix: keep comments in account and commodity lines, and
 only attach them to that account or commodity

---
 backend/ledger/parser.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 7c6ca7d..45517bc 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -171,8 +171,8 @@ func (l *ledgerConnection) addComment(where interface{}, comment string) {
 	case *accounting.Currency:
 		if tag.Name == "isin" {
 			x.ISIN = tag.Value
+			return
 		}
-		return
 	}
 	// Unknown tag:
 	l.ledger.Comments[where] = append(l.ledger.Comments[where], comment)
@@ -194,6 +194,7 @@ func (l *ledgerConnection) readJournal() error {
 	}
 
 	lastLine := lineNone
+	var lastCurrency *accounting.Currency // currency in last "commodity" line
 	for {
 		line := s.Line()
 		if line.Err != nil {
@@ -224,8 +225,7 @@ func (l *ledgerConnection) readJournal() error {
 					var account *accounting.Account = l.ledger.Accounts[len(l.ledger.Accounts)-1]
 					l.addComment(account, comment)
 				case lineCommodity:
-					var currency *accounting.Currency = l.ledger.Currencies[len(l.ledger.Currencies)-1]
-					l.addComment(currency, comment)
+					l.addComment(lastCurrency, comment)
 				case linePrice:
 					var price *accounting.Price = l.ledger.Prices[len(l.ledger.Prices)-1]
 					l.addComment(price, comment)
@@ -302,20 +302,31 @@ func (l *ledgerConnection) readJournal() error {
 			continue
 		}
 		if !indented && word == "commodity" {
-			lastLine = lineCommodity
-			_, err, _ := l.getValue(rest)
+			lastLine = lineNone
+			value, err, _ := l.getValue(rest)
+			if err == nil && value.Currency == nil {
+				err = errors.New("commodity without value")
+			}
 			if err != nil {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
 			}
+			lastLine = lineCommodity
+			lastCurrency = value.Currency
+			if comment != "" {
+				l.addComment(lastCurrency, comment)
+			}
 			continue
 		}
 		if !indented && word == "account" {
 			lastLine = lineAccount
-			_, new := l.getAccount(line.Filename, line.LineNum, rest)
+			account, new := l.getAccount(line.Filename, line.LineNum, rest)
 			if new == false {
 				log.Fatalf("%s:%d: account already defined", line.Filename, line.LineNum)
 			}
+			if comment != "" {
+				l.addComment(account, comment)
+			}
 			continue
 		}
 		if !indented {
-- 
2.43.0


From b5ea39dcab311165c5376674613b4ac172fe30e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:21 +0000
Subject: [PATCH 17/58] fix: do not attach splits and comments following a
 wrong line to the previous entry

---
 backend/ledger/parser.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 45517bc..218d79c 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -84,6 +84,7 @@ const (
 	linePrice
 	lineTransaction
 	lineSplit
+	lineWrongSplit
 	lineInclude
 )
 
@@ -259,6 +260,7 @@ func (l *ledgerConnection) readJournal() error {
 		if !indented && word == "P" {
 			var price accounting.Price
 			var err error
+			lastLine = lineNone
 			// set price
 			date, rest := firstWord(rest)
 			price.Time, err = GetDate(date)
@@ -270,6 +272,10 @@ func (l *ledgerConnection) readJournal() error {
 				log.Fatalf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
 			}
 			currency, rest := firstWord(rest)
+			if rest == "" {
+				log.Printf("%s:%d: Syntax error: price without value", line.Filename, line.LineNum)
+				continue
+			}
 			price.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
 			var newCurrency bool
 			price.Currency, newCurrency = l.ledger.GetCurrency(currency)
@@ -347,8 +353,9 @@ func (l *ledgerConnection) readJournal() error {
 				continue
 			}
 		}
-		if indented && (lastLine == lineTransaction || lastLine == lineSplit) {
+		if indented && (lastLine == lineTransaction || lastLine == lineSplit || lastLine == lineWrongSplit) {
 			// this is a split
+			lastLine = lineWrongSplit
 			t := l.ledger.Transactions[len(l.ledger.Transactions)-1]
 			s := new(accounting.Split)
 			s.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
@@ -442,6 +449,9 @@ func (l *ledgerConnection) readJournal() error {
 			lastLine = lineSplit
 			continue
 		}
+		if !indented {
+			lastLine = lineNone
+		}
 		log.Printf("%s:%d: UNIMPLEMENTED: \"%s\" (%s)\n", line.Filename, line.LineNum, text, comment)
 	}
 	return nil
-- 
2.43.0


From 338e365e3e8b495e639a76b22df90764ca8c2c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 18/58] fix: Open returns an error for unsorted entries and
 repeated accounts instead of ending the process

---
 backend/ledger/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 218d79c..7dfe5fc 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -269,7 +269,7 @@ func (l *ledgerConnection) readJournal() error {
 				continue
 			}
 			if len(l.ledger.Prices) > 0 && l.ledger.Prices[len(l.ledger.Prices)-1].Time.After(price.Time) {
-				log.Fatalf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
+				return fmt.Errorf("%s:%d: price is not chronologically sorted", line.Filename, line.LineNum)
 			}
 			currency, rest := firstWord(rest)
 			if rest == "" {
@@ -328,7 +328,7 @@ func (l *ledgerConnection) readJournal() error {
 			lastLine = lineAccount
 			account, new := l.getAccount(line.Filename, line.LineNum, rest)
 			if new == false {
-				log.Fatalf("%s:%d: account already defined", line.Filename, line.LineNum)
+				return fmt.Errorf("%s:%d: account already defined", line.Filename, line.LineNum)
 			}
 			if comment != "" {
 				l.addComment(account, comment)
@@ -339,7 +339,7 @@ func (l *ledgerConnection) readJournal() error {
 			date, err := GetDate(word)
 			if err == nil {
 				if len(l.ledger.Transactions) > 0 && l.ledger.Transactions[len(l.ledger.Transactions)-1].Time.After(date) {
-					log.Fatalf("%s:%d: transaction is not chronologically sorted", line.Filename, line.LineNum)
+					return fmt.Errorf("%s:%d: transaction is not chronologically sorted", line.Filename, line.LineNum)
 				}
 				var transaction accounting.Transaction
 				transaction.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
-- 
2.43.0


From 34996674b2764ca6cb2a1edbd1e7aae4d23cff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 19/58] fix: Fill works when the backend did not set
 Ledger.Comments

---
 accounting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/accounting.go b/accounting.go
index 2f051eb..ca5f0e1 100644
--- a/accounting.go
+++ b/accounting.go
@@ -653,6 +653,9 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited ma
 
 // Fill re-calculates all the automatic fields in all the accounting data.
 func (l *Ledger) Fill() error {
+	if l.Comments == nil {
+		l.Comments = make(map[interface{}][]string)
+	}
 	for _, a := range l.Accounts {
 		a.Splits = nil
 		a.Children = nil
-- 
2.43.0


From 73caf7aca7d75a7709ffcd9b3c08a247c62c814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:58 +0000
Subject: [PATCH 20/58] fix: do not include a file inside itself

---
 backend/ledger/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 7dfe5fc..9963f04 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -101,6 +101,14 @@ func (s *Scanner) NewFile(filename string) error {
 	if err != nil {
 		return err
 	}
+	if fi, err := f.Stat(); err == nil {
+		for _, open := range s.files {
+			if fi2, err := open.f.Stat(); err == nil && os.SameFile(fi, fi2) {
+				f.Close()
+				return fmt.Errorf("%s: file includes itself", filename)
+			}
+		}
+	}
 	s2 := bufio.NewScanner(f)
 	s.files = append(s.files, scannerFile{f: f, s: s2, filename: filename})
 	return nil
-- 
2.43.0


From 2372e6e6ced6b30574bfd7bdff0423999fe897f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 21/58] fix: Export writes the second and following comments of
 accounts as comments

---
 backend/ledger/ledger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index c19594d..ad31c95 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -55,7 +55,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		fmt.Fprint(out, "\n")
 		if len(ledger.Comments[a]) > 1 {
 			for _, c := range ledger.Comments[a][1:] {
-				fmt.Fprintf(out, "\t: %s\n", c)
+				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
 	}
-- 
2.43.0


From da28af7f5291342d9e3e9c5eaaf3763770e8e480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 22/58] fix: Export leaves out the transfer account, which is
 generated again when reading

---
 accounting.go            | 5 +++++
 backend/ledger/ledger.go | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/accounting.go b/accounting.go
index ca5f0e1..ed5da45 100644
--- a/accounting.go
+++ b/accounting.go
@@ -348,6 +348,11 @@ func (l *Ledger) Account(id ID) *Account {
 	return nil
 }
 
+// IsTransferAccount returns whether an account is the one for which l.Fill() generates splits automatically.
+func (l *Ledger) IsTransferAccount(a *Account) bool {
+	return a != nil && a == l.transferAccount
+}
+
 // FullName returns the fully qualified name of the account:
 // the name of all its ancestors, separated by ":", and ending
 // with this account's name.
diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index ad31c95..67c2246 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -48,6 +48,9 @@ func (conn *ledgerConnection) Refresh() {
 func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
 	for _, a := range ledger.Accounts {
+		if ledger.IsTransferAccount(a) {
+			continue
+		}
 		fmt.Fprintf(out, "account %s", a.FullName())
 		if len(ledger.Comments[a]) > 0 {
 			fmt.Fprintf(out, " ; %s", ledger.Comments[a][0])
@@ -105,6 +108,9 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				}
 			}
 			for _, s := range t.Splits {
+				if ledger.IsTransferAccount(s.Account) {
+					continue
+				}
 				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), s.Value.FullString())
 				if v, ok := ledger.SplitPrices[s]; ok == true {
 					fmt.Fprintf(out, " @@ %s", v.FullString())
-- 
2.43.0


From 051318f5d6a90f63f7c86f4373172b6fa9a78af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 23/58] fix: Export writes account codes and ISINs

---
 backend/ledger/ledger.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 67c2246..e5aaead 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -52,12 +52,17 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			continue
 		}
 		fmt.Fprintf(out, "account %s", a.FullName())
-		if len(ledger.Comments[a]) > 0 {
-			fmt.Fprintf(out, " ; %s", ledger.Comments[a][0])
+		var comments []string
+		if a.Code != "" {
+			comments = append(comments, "code:"+a.Code)
+		}
+		comments = append(comments, ledger.Comments[a]...)
+		if len(comments) > 0 {
+			fmt.Fprintf(out, " ; %s", comments[0])
 		}
 		fmt.Fprint(out, "\n")
-		if len(ledger.Comments[a]) > 1 {
-			for _, c := range ledger.Comments[a][1:] {
+		if len(comments) > 1 {
+			for _, c := range comments[1:] {
 				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
@@ -69,12 +74,17 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		v.Amount = 1_000_000 * accounting.U
 		v.Currency = cu
 		fmt.Fprintf(out, "commodity %s", v.String())
-		if len(ledger.Comments[cu]) > 0 {
-			fmt.Fprintf(out, " ; %s", ledger.Comments[cu][0])
+		var comments []string
+		if cu.ISIN != "" {
+			comments = append(comments, "isin:"+cu.ISIN)
+		}
+		comments = append(comments, ledger.Comments[cu]...)
+		if len(comments) > 0 {
+			fmt.Fprintf(out, " ; %s", comments[0])
 		}
 		fmt.Fprint(out, "\n")
-		if len(ledger.Comments[cu]) > 1 {
-			for _, c := range ledger.Comments[cu][1:] {
+		if len(comments) > 1 {
+			for _, c := range comments[1:] {
 				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
-- 
2.43.0


From db075e127b1baafb8f0d0209262ab1e5ec6d2ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:03 +0000
Subject: [PATCH 24/58] fix: Export keeps the seconds of dates

---
 backend/ledger/ledger.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index e5aaead..e1a3cbd 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -44,6 +44,14 @@ func (conn *ledgerConnection) Refresh() {
 	// TODO FIXME XXX: notifier
 }
 
+// formatTime returns the date and time in the format used in journal files.
+func formatTime(t time.Time) string {
+	if t.Second() != 0 {
+		return t.Format("2006-01-02/15:04:05")
+	}
+	return t.Format("2006-01-02/15:04")
+}
+
 // Export shows the "Ledger" representation of an accounting ledger.
 func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
@@ -107,7 +115,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		// fmt.Fprintf(out, "DEBUG: i=%d j=%d tt=%v tp=%v\n", i, j, tt, tp)
 		if p == nil || (t != nil && !tt.After(tp)) {
 			i++
-			fmt.Fprintf(out, "%s %s", t.Time.Format("2006-01-02/15:04"), t.Description)
+			fmt.Fprintf(out, "%s %s", formatTime(t.Time), t.Description)
 			if len(ledger.Comments[t]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[t][0])
 			}
@@ -130,7 +138,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				}
 				var comments []string
 				if *s.Time != t.Time {
-					comments = append(comments, "date:"+s.Time.Format("2006-01-02/15:04"))
+					comments = append(comments, "date:"+formatTime(*s.Time))
 				}
 				if len(ledger.Comments[s]) > 0 {
 					comments = append(comments, ledger.Comments[s]...)
@@ -147,7 +155,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		} else {
 			j++
-			fmt.Fprintf(out, "P %s %s %s", p.Time.Format("2006-01-02/15:04"), p.Currency.Name, p.Value.FullString())
+			fmt.Fprintf(out, "P %s %s %s", formatTime(p.Time), p.Currency.Name, p.Value.FullString())
 			if len(ledger.Comments[p]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[p][0])
 			}
-- 
2.43.0


From 7c3d92987a75758adc7038eb5d90d0f085735cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 25/58] fix: splits explicitly dated as their transaction need
 no transfer

---
 accounting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index ed5da45..549b3b1 100644
--- a/accounting.go
+++ b/accounting.go
@@ -891,7 +891,7 @@ func (l *Ledger) Fill() error {
 transferAlreadyInAccounts:
 	for i := range l.Transactions {
 		for j := range l.Transactions[i].Splits {
-			if l.Transactions[i].Splits[j].Time != &l.Transactions[i].Time {
+			if !l.Transactions[i].Splits[j].Time.Equal(l.Transactions[i].Time) {
 				split1 := &Split{
 					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
-- 
2.43.0


From a0e783bf6e846662fcbb939e9b35e157341bcd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 26/58] fix: Export keeps the default currency, and the amounts
 without currency

---
 backend/ledger/ledger.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index e1a3cbd..235d2af 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -52,6 +52,26 @@ func formatTime(t time.Time) string {
 	return t.Format("2006-01-02/15:04")
 }
 
+// isUnnamed returns whether a currency is one without a name.
+func isUnnamed(c *accounting.Currency) bool {
+	return c == nil || c.Name == ""
+}
+
+// unnamedCurrency returns the currency of the amounts written without one, if any.
+func unnamedCurrency(ledger *accounting.Ledger) *accounting.Currency {
+	if ledger.DefaultCurrency != nil && isUnnamed(ledger.DefaultCurrency) {
+		return ledger.DefaultCurrency
+	}
+	for _, t := range ledger.Transactions {
+		for _, s := range t.Splits {
+			if s.Value.Amount != 0 && isUnnamed(s.Value.Currency) {
+				return s.Value.Currency
+			}
+		}
+	}
+	return nil
+}
+
 // Export shows the "Ledger" representation of an accounting ledger.
 func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
@@ -77,7 +97,11 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 	}
 	fmt.Fprintln(out)
 	// fmt.Fprintln(out, "\n; Currencies:")
-	for _, cu := range ledger.Currencies {
+	currencies := ledger.Currencies
+	if cu := unnamedCurrency(ledger); cu != nil {
+		currencies = append([]*accounting.Currency{cu}, currencies...)
+	}
+	for _, cu := range currencies {
 		var v accounting.Value
 		v.Amount = 1_000_000 * accounting.U
 		v.Currency = cu
@@ -129,7 +153,11 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				if ledger.IsTransferAccount(s.Account) {
 					continue
 				}
-				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), s.Value.FullString())
+				value := s.Value.FullString()
+				if s.Value.Amount == 0 && isUnnamed(s.Value.Currency) && s.Value.Currency != ledger.DefaultCurrency {
+					value = "" // it was written without a value
+				}
+				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), value)
 				if v, ok := ledger.SplitPrices[s]; ok == true {
 					fmt.Fprintf(out, " @@ %s", v.FullString())
 				}
@@ -167,4 +195,8 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		}
 	}
+	// At the end, because the default currency does not apply to amounts read before it.
+	if ledger.DefaultCurrency != nil && !isUnnamed(ledger.DefaultCurrency) {
+		fmt.Fprintf(out, "\nD %s\n", accounting.Value{Amount: 1_000_000 * accounting.U, Currency: ledger.DefaultCurrency})
+	}
 }
-- 
2.43.0


From 493fa5a162338e0b81c94b49930a197832c14b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 27/58] fix: ledger delta counts once an account matching
 several arguments

---
 cmd/ledger/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 5b59108..a36f6d3 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -319,6 +319,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 		for _, b := range args {
 			if strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(b)) {
 				accounts = append(accounts, a)
+				break
 			}
 		}
 	}
-- 
2.43.0


From a46b5f561a51a4434403b06a92700fae1cea8523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 28/58] fix: ledger -b balance shows the balance of accounts
 without later splits

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index a36f6d3..e56c4bb 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -139,7 +139,7 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 	}
 	if !flags.total {
 		for _, a := range accounts {
-			if len(a.Account.Splits) > 0 {
+			if len(a.Account.Splits) > 0 || len(a.Balance) > 0 {
 				for i, v := range a.Balance {
 					fmt.Printf("%*.*s", maxLength, maxLength, v.String())
 					if i == len(a.Balance)-1 {
-- 
2.43.0


From 5743edcf965cc81d42cc023db5d476096ef1ee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 29/58] fix: ledger -pivot removes the other transactions from
 balances too

---
 cmd/ledger/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index e56c4bb..8e970cc 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -422,6 +422,11 @@ func doPivot(L *accounting.Ledger, pivot sliceString) {
 				j--
 			}
 		}
+		var b accounting.Balance
+		for _, s := range L.Accounts[i].Splits {
+			b.Add(s.Value)
+			s.Balance = b.Dup()
+		}
 	}
 }
 
-- 
2.43.0


From b1a557684e92db6cddc056fd2536d482f39e7ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 30/58] fix: ledger -market delta values the final balance at
 the end date

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 8e970cc..af29425 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -344,7 +344,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 		balanceEnd.AddBalance(balanceBegin)
 		balanceEnd.AddBalance(balanceDelta)
 		for _, v := range balanceEnd {
-			nv, err := L.Convert(v, flags.beginDate, L.DefaultCurrency)
+			nv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 1bfb60352b8e1c11db2f6530bdcf7d4194735974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:52 +0000
Subject: [PATCH 31/58] fix: show the lowest possible amount

---
 accounting.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/accounting.go b/accounting.go
index 549b3b1..dc14118 100644
--- a/accounting.go
+++ b/accounting.go
@@ -81,12 +81,13 @@ func (value Value) GetString(full bool, units bool) string {
 			result += " "
 		}
 	}
+	amount := uint64(value.Amount)
 	if value.Amount < 0 {
 		result += "-"
-		value.Amount = -value.Amount
+		amount = -amount
 	}
-	i := value.Amount / U
-	d := value.Amount % U
+	i := amount / U
+	d := amount % U
 	if c.Decimal == "" { // shouldn't happen
 		c.Decimal = "."
 	}
-- 
2.43.0


From 48e6ad5d7855fc8ea242d71940a4be4f291755a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:53 +0000
Subject: [PATCH 32/58] fix: txtdb reports files that cannot be read

---
 backend/txtdb/txtdb.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 4c02b90..e330bac 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -96,12 +96,18 @@ func (c *conn) read() error {
 		c.accountMap[id] = &ac
 		c.ledger.Accounts = append(c.ledger.Accounts, &ac)
 	}
+	if err := sc.Err(); err != nil {
+		return err
+	}
 	c.ledger.Accounts = accounting.SortAccounts(c.ledger.Accounts)
 
 	f, err = os.Open(filepath.Join(c.dir, "transactions"))
-	if err != nil {
+	if os.IsNotExist(err) {
 		return nil
 	}
+	if err != nil {
+		return err
+	}
 	sc = bufio.NewScanner(f)
 	nextID := 1
 	var balance int64
@@ -209,6 +215,9 @@ func (c *conn) read() error {
 			nextID++
 		}
 	}
+	if err := sc.Err(); err != nil {
+		return err
+	}
 	if balance != 0 {
 		log.Printf("transactions: balance is %d, not zero", balance)
 	}
-- 
2.43.0


From 98bd12c3bdb8c191422b9c7329176e05abf5d00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:54 +0000
Subject: [PATCH 33/58] fix: txtdb: wrong lines do not give their date and
 description to a transaction

---
 backend/txtdb/txtdb.go | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index e330bac..9594d9f 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -131,20 +131,6 @@ func (c *conn) read() error {
 			log.Printf("transactions line %d: datetime error (%s)\n", i, strings.TrimSpace(fields[1]))
 			continue
 		}
-		if oldTime.After(thisTime) {
-			log.Printf("transactions line %d: datetime not sorted\n", i)
-		}
-		if tr.ID == nil { // Fill tr only if it is not already filled
-			// First field (used to be "id") is ignored
-			tr.ID = ID(nextID)
-			tr.Time = thisTime
-			tr.Description = fields[2]
-		} else {
-			if oldTime != thisTime {
-				log.Printf("NOTICE: transactions line %d: same transaction, different datetime\n", i)
-			}
-		}
-		oldTime = thisTime
 		accountID, err := strconv.Atoi(fields[4])
 		if err != nil {
 			log.Printf("transactions line %d: invalid account (%s)", i, fields[4])
@@ -156,16 +142,12 @@ func (c *conn) read() error {
 			log.Printf("transactions line %d: invalid account (%s)", i, fields[4])
 			continue
 		}
-		if thisTime != tr.Time {
-			sp.Time = new(time.Time)
-			*sp.Time = thisTime
-		}
 		if len(fields[5]) == 0 {
 			if balance != 0 {
 				log.Printf("transactions line %d: no value inside transaction (balance=%d)", i, balance)
-				balance = 0
 			}
 			if len(fields[6]) == 0 {
+				balance = 0
 				tr = nil
 				continue
 			}
@@ -187,6 +169,7 @@ func (c *conn) read() error {
 			v.Currency = &c.currency
 			v.Amount = sign * int64(math.Round(100*f)) * 1000_000
 			c.ledger.Assertions[sp] = v
+			balance = 0
 		}
 		if len(fields[5]) > 0 {
 			var sign int64
@@ -207,6 +190,24 @@ func (c *conn) read() error {
 			sp.Value.Amount = sign * int64(math.Round(100*f)) * 1000_000
 			balance += sp.Value.Amount
 		}
+		if oldTime.After(thisTime) {
+			log.Printf("transactions line %d: datetime not sorted\n", i)
+		}
+		if tr.ID == nil { // Fill tr only if it is not already filled
+			// First field (used to be "id") is ignored
+			tr.ID = ID(nextID)
+			tr.Time = thisTime
+			tr.Description = fields[2]
+		} else {
+			if oldTime != thisTime {
+				log.Printf("NOTICE: transactions line %d: same transaction, different datetime\n", i)
+			}
+		}
+		oldTime = thisTime
+		if thisTime != tr.Time {
+			sp.Time = new(time.Time)
+			*sp.Time = thisTime
+		}
 		tr.Splits = append(tr.Splits, sp)
 		sp.Account.Splits = append(sp.Account.Splits, sp)
 		if balance == 0 {
-- 
2.43.0


From a8d8a08d22ee9d64e140cf711651031f7ff74224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 34/58] fix: txtdb rejects amounts too large to be stored

---
 backend/txtdb/txtdb.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 9594d9f..ccfbe82 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -160,7 +160,7 @@ func (c *conn) read() error {
 				sign = -1
 				offset = 1
 			}
-			f, err := strconv.ParseFloat(fields[6][offset:], 64)
+			f, err := parseAmount(fields[6][offset:])
 			if err != nil {
 				log.Printf("transactions line %d: invalid balance (%s)", i, fields[6])
 				continue
@@ -181,7 +181,7 @@ func (c *conn) read() error {
 				log.Printf("transaction line %d: invalid value (%s)", i, fields[5])
 				continue
 			}
-			f, err := strconv.ParseFloat(fields[5][1:], 64)
+			f, err := parseAmount(fields[5][1:])
 			if err != nil {
 				log.Printf("transaction line %d: invalid value (%s)", i, fields[5])
 				continue
@@ -225,6 +225,15 @@ func (c *conn) read() error {
 	return nil
 }
 
+// parseAmount reads an amount and checks that it is small enough to be stored.
+func parseAmount(s string) (float64, error) {
+	f, err := strconv.ParseFloat(s, 64)
+	if err == nil && !(math.Abs(f) < math.MaxInt64/accounting.U) {
+		err = errors.New("amount out of range")
+	}
+	return f, err
+}
+
 func init() {
 	accounting.Register("txtdb", driver{})
 }
-- 
2.43.0


From 4c11bf778b7dcea5ce2bd2ae864a7a12f2cf810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:33 +0000
Subject: [PATCH 35/58] fix: reject posting prices and assertions without a
 value

---
 backend/ledger/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 9963f04..2079bee 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -423,6 +423,9 @@ func (l *ledgerConnection) readJournal() error {
 			}
 			if hasPriceRel || hasPriceAbs {
 				value, err, newCurrency := l.getValue(strings.TrimSpace(text[priceStart:priceEnd]))
+				if err == nil && (value.Currency == nil || s.Value.Currency == nil) {
+					err = errors.New("syntax error: price without value")
+				}
 				if err != nil {
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
 					continue
@@ -444,6 +447,9 @@ func (l *ledgerConnection) readJournal() error {
 			}
 			if hasAssertion {
 				value, err, newCurrency := l.getValue(strings.TrimSpace(text[assertionStart:assertionEnd]))
+				if err == nil && value.Currency == nil {
+					err = errors.New("syntax error: assertion without value")
+				}
 				if err != nil {
 					log.Printf("%s:%d: %s\n", line.Filename, line.LineNum, err.Error())
 					continue
-- 
2.43.0


From 9bc04ecce227d5b71b850ffa91da1e287ee73413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:02 +0000
Subject: [PATCH 36/58] fix: use one single currency for all the amounts
 without one, so that Export keeps them

---
 backend/ledger/ledger.go | 33 ++++++++++++++++++++++++++++-----
 backend/ledger/parser.go |  9 +++++++--
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 235d2af..8c1cddc 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -19,6 +19,7 @@ type ledgerConnection struct {
 	file    string
 	backend *accounting.Backend
 	ledger  *accounting.Ledger
+	unnamed *accounting.Currency // currency of the amounts written without one, if there is no default
 }
 
 func (driver) Open(name string, backend *accounting.Backend) (accounting.Connection, error) {
@@ -58,14 +59,33 @@ func isUnnamed(c *accounting.Currency) bool {
 }
 
 // unnamedCurrency returns the currency of the amounts written without one, if any.
+// Splits written without a value have another unnamed currency (a different one for each split).
 func unnamedCurrency(ledger *accounting.Ledger) *accounting.Currency {
 	if ledger.DefaultCurrency != nil && isUnnamed(ledger.DefaultCurrency) {
 		return ledger.DefaultCurrency
 	}
+	for _, p := range ledger.Prices {
+		if p.Value.Currency != nil && isUnnamed(p.Value.Currency) {
+			return p.Value.Currency
+		}
+	}
+	seen := make(map[*accounting.Currency]bool)
 	for _, t := range ledger.Transactions {
 		for _, s := range t.Splits {
-			if s.Value.Amount != 0 && isUnnamed(s.Value.Currency) {
-				return s.Value.Currency
+			if ledger.IsTransferAccount(s.Account) {
+				continue
+			}
+			if c := s.Value.Currency; c != nil && isUnnamed(c) {
+				if s.Value.Amount != 0 || seen[c] {
+					return c
+				}
+				seen[c] = true
+			}
+			if v, ok := ledger.SplitPrices[s]; ok && v.Currency != nil && isUnnamed(v.Currency) {
+				return v.Currency
+			}
+			if v, ok := ledger.Assertions[s]; ok && v.Currency != nil && isUnnamed(v.Currency) {
+				return v.Currency
 			}
 		}
 	}
@@ -98,8 +118,9 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 	fmt.Fprintln(out)
 	// fmt.Fprintln(out, "\n; Currencies:")
 	currencies := ledger.Currencies
-	if cu := unnamedCurrency(ledger); cu != nil {
-		currencies = append([]*accounting.Currency{cu}, currencies...)
+	unnamed := unnamedCurrency(ledger)
+	if unnamed != nil {
+		currencies = append([]*accounting.Currency{unnamed}, currencies...)
 	}
 	for _, cu := range currencies {
 		var v accounting.Value
@@ -154,7 +175,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 					continue
 				}
 				value := s.Value.FullString()
-				if s.Value.Amount == 0 && isUnnamed(s.Value.Currency) && s.Value.Currency != ledger.DefaultCurrency {
+				if s.Value.Amount == 0 && isUnnamed(s.Value.Currency) && s.Value.Currency != unnamed {
 					value = "" // it was written without a value
 				}
 				fmt.Fprintf(out, "  %-50s  %s", s.Account.FullName(), value)
@@ -198,5 +219,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 	// At the end, because the default currency does not apply to amounts read before it.
 	if ledger.DefaultCurrency != nil && !isUnnamed(ledger.DefaultCurrency) {
 		fmt.Fprintf(out, "\nD %s\n", accounting.Value{Amount: 1_000_000 * accounting.U, Currency: ledger.DefaultCurrency})
+	} else if ledger.DefaultCurrency == nil && unnamed != nil {
+		fmt.Fprint(out, "\nD\n")
 	}
 }
diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 2079bee..30e2c61 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -197,6 +197,7 @@ func (l *ledgerConnection) readJournal() error {
 	l.ledger.Assertions = make(map[*accounting.Split]accounting.Value)
 	l.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
 	l.ledger.DefaultCurrency = nil
+	l.unnamed = nil
 	s := NewScanner()
 	if err := s.NewFile(l.file); err != nil {
 		return err
@@ -534,9 +535,13 @@ done:
 	}
 	newCurrency := true
 	if value.Currency.Name == "" {
-		if l.ledger.DefaultCurrency == nil {
-			l.ledger.DefaultCurrency = value.Currency
+		if l.ledger.DefaultCurrency == nil && l.unnamed == nil {
+			l.unnamed = value.Currency
+			l.ledger.DefaultCurrency = l.unnamed
 		} else {
+			if l.ledger.DefaultCurrency == nil {
+				l.ledger.DefaultCurrency = l.unnamed
+			}
 			value.Currency = l.ledger.DefaultCurrency
 			newCurrency = false
 		}
-- 
2.43.0


From 5e606498bc8069b0004412004e2923b5e24a0c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 37/58] fix: rejected amounts do not change the marks of their
 currency

---
 backend/ledger/parser.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 30e2c61..db929f3 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -491,8 +491,7 @@ func (l *ledgerConnection) getAccount(filename string, lineNum int, str string)
 	return &account, true
 }
 
-func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
-	var value accounting.Value
+func (l *ledgerConnection) getValue(s string) (value accounting.Value, err error, newCurrency bool) {
 	value.Currency = new(accounting.Currency)
 	var sAmount string
 
@@ -533,7 +532,7 @@ done:
 	if strings.ContainsAny(value.Currency.Name, "=@") {
 		return value, errors.New("syntax error: invalid character in currency"), false
 	}
-	newCurrency := true
+	newCurrency = true
 	if value.Currency.Name == "" {
 		if l.ledger.DefaultCurrency == nil && l.unnamed == nil {
 			l.unnamed = value.Currency
@@ -556,6 +555,11 @@ done:
 		l.ledger.Currencies = append(l.ledger.Currencies, value.Currency)
 	}
 done2:
+	defer func(currency accounting.Currency) {
+		if err != nil { // a wrong amount says nothing about its currency
+			*value.Currency = currency
+		}
+	}(*value.Currency)
 	firstAmount := value.Currency.Decimal == ""
 	var sign int64 = 1
 	if sAmount[0] == '-' {
-- 
2.43.0


From 90eff0b34daeab4baaa284b90015e5dddedc7c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 38/58] fix: reject prices of currencies whose name could not
 be used in an amount

---
 backend/ledger/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index db929f3..ffb5dce 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -285,6 +285,10 @@ func (l *ledgerConnection) readJournal() error {
 				log.Printf("%s:%d: Syntax error: price without value", line.Filename, line.LineNum)
 				continue
 			}
+			if strings.ContainsAny(currency, "=@") {
+				log.Printf("%s:%d: Syntax error: invalid character in currency", line.Filename, line.LineNum)
+				continue
+			}
 			price.ID = &ID{filename: line.Filename, lineNum: line.LineNum}
 			var newCurrency bool
 			price.Currency, newCurrency = l.ledger.GetCurrency(currency)
-- 
2.43.0


From 8fd188750ed4eafbfd4724b27cc7a599ae10dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:29 +0000
Subject: [PATCH 39/58] fix: do not accept fractions of a second in dates

---
 backend/ledger/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index ffb5dce..418e224 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -694,6 +694,9 @@ func GetDate(s string) (time.Time, error) {
 	s = strings.ReplaceAll(s, "_", "-")
 	s = strings.ReplaceAll(s, ":", "-")
 	s = strings.ReplaceAll(s, ".", "-")
+	if strings.Contains(s, ",") { // time.Parse would accept fractions of a second
+		return time.Time{}, fmt.Errorf("invalid date %q", s)
+	}
 	d, e := time.Parse("2006-01-02", s)
 	d = d.Add(12 * time.Hour)
 	if e != nil {
-- 
2.43.0


From b7836e1d5cbac098ab7c0e7e4c006bc32759096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:29 +0000
Subject: [PATCH 40/58] fix: Export leaves out automatic prices of currencies
 that do not fit in a price line

---
 backend/ledger/ledger.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 8c1cddc..594cdc0 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"net/url"
+	"strings"
 	"time"
 
 	"github.com/cespedes/accounting"
@@ -204,6 +205,11 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			}
 		} else {
 			j++
+			if isUnnamed(p.Currency) || strings.Contains(p.Currency.Name, " ") {
+				// Only automatic prices can be for these currencies,
+				// and they are generated again when reading.
+				continue
+			}
 			fmt.Fprintf(out, "P %s %s %s", formatTime(p.Time), p.Currency.Name, p.Value.FullString())
 			if len(ledger.Comments[p]) > 0 {
 				fmt.Fprintf(out, " ; %s", ledger.Comments[p][0])
-- 
2.43.0


From a7cefe97603ea3b6be102c0484cfe1c79e50bf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:30 +0000
Subject: [PATCH 41/58] fix: Export leaves out accounts whose name ends with a
 space, which are created by their children

---
 backend/ledger/ledger.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 594cdc0..ad440a9 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -100,6 +100,9 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		if ledger.IsTransferAccount(a) {
 			continue
 		}
+		if name := a.FullName(); strings.TrimSpace(name) != name {
+			continue // it is created again when reading its children
+		}
 		fmt.Fprintf(out, "account %s", a.FullName())
 		var comments []string
 		if a.Code != "" {
-- 
2.43.0


From a7f1bcdee6b952c3a785c6f8a17184219d40d2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 42/58] fix: Export keeps comments following an empty one

---
 backend/ledger/ledger.go | 62 +++++++++++-----------------------------
 1 file changed, 17 insertions(+), 45 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index ad440a9..7332b4d 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -93,6 +93,18 @@ func unnamedCurrency(ledger *accounting.Ledger) *accounting.Currency {
 	return nil
 }
 
+// exportComments shows the comments of one entry: the first one in the same line (if it is not empty), and the rest below.
+func exportComments(out io.Writer, comments []string) {
+	if len(comments) > 0 && comments[0] != "" {
+		fmt.Fprintf(out, " ; %s", comments[0])
+		comments = comments[1:]
+	}
+	fmt.Fprint(out, "\n")
+	for _, c := range comments {
+		fmt.Fprintf(out, "\t; %s\n", c)
+	}
+}
+
 // Export shows the "Ledger" representation of an accounting ledger.
 func Export(out io.Writer, ledger *accounting.Ledger) {
 	// fmt.Fprintln(out, "\n; Accounts:")
@@ -109,15 +121,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			comments = append(comments, "code:"+a.Code)
 		}
 		comments = append(comments, ledger.Comments[a]...)
-		if len(comments) > 0 {
-			fmt.Fprintf(out, " ; %s", comments[0])
-		}
-		fmt.Fprint(out, "\n")
-		if len(comments) > 1 {
-			for _, c := range comments[1:] {
-				fmt.Fprintf(out, "\t; %s\n", c)
-			}
-		}
+		exportComments(out, comments)
 	}
 	fmt.Fprintln(out)
 	// fmt.Fprintln(out, "\n; Currencies:")
@@ -136,15 +140,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 			comments = append(comments, "isin:"+cu.ISIN)
 		}
 		comments = append(comments, ledger.Comments[cu]...)
-		if len(comments) > 0 {
-			fmt.Fprintf(out, " ; %s", comments[0])
-		}
-		fmt.Fprint(out, "\n")
-		if len(comments) > 1 {
-			for _, c := range comments[1:] {
-				fmt.Fprintf(out, "\t; %s\n", c)
-			}
-		}
+		exportComments(out, comments)
 	}
 	fmt.Fprintln(out)
 	// fmt.Fprintln(out, "\n; Transactions and prices:")
@@ -165,15 +161,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		if p == nil || (t != nil && !tt.After(tp)) {
 			i++
 			fmt.Fprintf(out, "%s %s", formatTime(t.Time), t.Description)
-			if len(ledger.Comments[t]) > 0 {
-				fmt.Fprintf(out, " ; %s", ledger.Comments[t][0])
-			}
-			fmt.Fprint(out, "\n")
-			if len(ledger.Comments[t]) > 1 {
-				for _, c := range ledger.Comments[t][1:] {
-					fmt.Fprintf(out, "\t; %s\n", c)
-				}
-			}
+			exportComments(out, ledger.Comments[t])
 			for _, s := range t.Splits {
 				if ledger.IsTransferAccount(s.Account) {
 					continue
@@ -196,15 +184,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				if len(ledger.Comments[s]) > 0 {
 					comments = append(comments, ledger.Comments[s]...)
 				}
-				if len(comments) > 0 {
-					fmt.Fprintf(out, " ; %s", comments[0])
-				}
-				fmt.Fprint(out, "\n")
-				if len(comments) > 1 {
-					for _, c := range comments[1:] {
-						fmt.Fprintf(out, "\t; %s\n", c)
-					}
-				}
+				exportComments(out, comments)
 			}
 		} else {
 			j++
@@ -214,15 +194,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 				continue
 			}
 			fmt.Fprintf(out, "P %s %s %s", formatTime(p.Time), p.Currency.Name, p.Value.FullString())
-			if len(ledger.Comments[p]) > 0 {
-				fmt.Fprintf(out, " ; %s", ledger.Comments[p][0])
-			}
-			fmt.Fprint(out, "\n")
-			if len(ledger.Comments[p]) > 1 {
-				for _, c := range ledger.Comments[p][1:] {
-					fmt.Fprintf(out, "\t; %s\n", c)
-				}
-			}
+			exportComments(out, ledger.Comments[p])
 		}
 	}
 	// At the end, because the default currency does not apply to amounts read before it.
-- 
2.43.0


From eea6e0f855189a86e0f2c8297c92fd6bc05dd5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 43/58] fix: Fill reports sums too large to be stored instead
 of wrapping around

---
 accounting.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/accounting.go b/accounting.go
index dc14118..146b71f 100644
--- a/accounting.go
+++ b/accounting.go
@@ -3,6 +3,7 @@ package accounting
 import (
 	"errors"
 	"fmt"
+	"math"
 	"math/big"
 	"net/url"
 	"sort"
@@ -533,6 +534,17 @@ func (b *Balance) Add(v Value) {
 	*b = append(*b, v)
 }
 
+// overflows returns whether adding a value to a balance would give an amount too large to be stored.
+func (b Balance) overflows(v Value) bool {
+	for i := range b {
+		if b[i].Currency == v.Currency {
+			sum := b[i].Amount + v.Amount
+			return (sum > b[i].Amount) != (v.Amount > 0) && v.Amount != 0 || sum == math.MinInt64
+		}
+	}
+	return v.Amount == math.MinInt64
+}
+
 // Sub substracts a value to a balance.
 func (b *Balance) Sub(v Value) {
 	v.Amount = -v.Amount
@@ -745,6 +757,9 @@ func (l *Ledger) Fill() error {
 					unbalancedSplit = transaction.Splits[i]
 					continue
 				}
+				if v, ok := l.SplitPrices[s]; ok && balance.overflows(v) || !ok && balance.overflows(s.Value) {
+					return fmt.Errorf("%s: amounts too large", transaction.ID)
+				}
 				if v, ok := l.SplitPrices[s]; ok == true {
 					balance.Add(v)
 				} else {
@@ -815,6 +830,9 @@ func (l *Ledger) Fill() error {
 					break
 				}
 				deadlock = false
+				if b.overflows(s.Value) {
+					return fmt.Errorf("%s: balance too large", s.ID)
+				}
 				b.Add(s.Value)
 				s.Balance = b.Dup()
 				if a := l.Assertions[s]; a != (Value{}) {
@@ -825,6 +843,9 @@ func (l *Ledger) Fill() error {
 						}
 					}
 					if s.Value == (Value{}) {
+						if (Balance{a}).overflows(Value{Amount: -current.Amount, Currency: a.Currency}) {
+							return fmt.Errorf("%s: amount too large", s.ID)
+						}
 						s.Value = a
 						s.Value.Amount = a.Amount - current.Amount
 						b.Add(s.Value)
@@ -924,6 +945,9 @@ transferAlreadyInAccounts:
 
 	var b Balance
 	for _, s := range l.transferAccount.Splits {
+		if b.overflows(s.Value) {
+			return fmt.Errorf("%s: balance too large", l.transferAccount.Name)
+		}
 		b.Add(s.Value)
 		s.Balance = b.Dup()
 	}
-- 
2.43.0


From 013a07fa34570da0717553f24d93d986288f6f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 44/58] fix: do not generate prices too large to be stored

---
 accounting.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/accounting.go b/accounting.go
index 146b71f..6d2e100 100644
--- a/accounting.go
+++ b/accounting.go
@@ -797,8 +797,10 @@ func (l *Ledger) Fill() error {
 				i.Quo(i, big.NewInt(balance[0].Amount))
 				price.Value.Amount = i.Int64()
 				price.Value.Currency = balance[1].Currency
-				l.Prices = append(l.Prices, price)
-				l.Comments[price] = append(l.Comments[price], "automatic")
+				if i.IsInt64() { // otherwise, it is too large to be stored
+					l.Prices = append(l.Prices, price)
+					l.Comments[price] = append(l.Comments[price], "automatic")
+				}
 				price = new(Price)
 				price.Time = transaction.Time
 				price.Currency = balance[1].Currency
@@ -807,8 +809,10 @@ func (l *Ledger) Fill() error {
 				i.Quo(i, big.NewInt(balance[1].Amount))
 				price.Value.Amount = i.Int64()
 				price.Value.Currency = balance[0].Currency
-				l.Prices = append(l.Prices, price)
-				l.Comments[price] = append(l.Comments[price], "automatic")
+				if i.IsInt64() { // otherwise, it is too large to be stored
+					l.Prices = append(l.Prices, price)
+					l.Comments[price] = append(l.Comments[price], "automatic")
+				}
 				deadlock = false
 				continue
 			}
@@ -880,8 +884,10 @@ func (l *Ledger) Fill() error {
 		i.Quo(i, big.NewInt(s.Value.Amount))
 		price.Value.Amount = i.Int64()
 		price.Value.Currency = v.Currency
-		l.Prices = append(l.Prices, price)
-		l.Comments[price] = append(l.Comments[price], "automatic")
+		if i.IsInt64() { // otherwise, it is too large to be stored
+			l.Prices = append(l.Prices, price)
+			l.Comments[price] = append(l.Comments[price], "automatic")
+		}
 
 		price = new(Price)
 		price.Time = *s.Time
@@ -891,8 +897,10 @@ func (l *Ledger) Fill() error {
 		i.Quo(i, big.NewInt(v.Amount))
 		price.Value.Amount = i.Int64()
 		price.Value.Currency = s.Value.Currency
-		l.Prices = append(l.Prices, price)
-		l.Comments[price] = append(l.Comments[price], "automatic")
+		if i.IsInt64() { // otherwise, it is too large to be stored
+			l.Prices = append(l.Prices, price)
+			l.Comments[price] = append(l.Comments[price], "automatic")
+		}
 	}
 
 	// This must be executed after all the balances
-- 
2.43.0


From e2d1f138b264c7136a88934ba658288f7ae0816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:36 +0000
Subject: [PATCH 45/58] fix: convert with prices centuries apart

---
 accounting.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/accounting.go b/accounting.go
index 6d2e100..6def1b3 100644
--- a/accounting.go
+++ b/accounting.go
@@ -581,6 +581,13 @@ func insertAccount(where *[]*Account, account *Account) {
 	}
 }
 
+// elapsed returns the nanoseconds between two times (they could be too many for a time.Duration).
+func elapsed(from, to time.Time) *big.Int {
+	d := big.NewInt(to.Unix() - from.Unix())
+	d.Mul(d, big.NewInt(int64(time.Second)))
+	return d.Add(d, big.NewInt(int64(to.Nanosecond()-from.Nanosecond())))
+}
+
 // Convert returns a value to another currency.
 func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, error) {
 	if currency == nil {
@@ -629,7 +636,7 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited ma
 				prevValue = p.Value
 				continue
 			}
-			if prevTime == (time.Time{}) || p.Time.Sub(when) < when.Sub(prevTime) {
+			if prevTime == (time.Time{}) || elapsed(when, p.Time).Cmp(elapsed(prevTime, when)) < 0 {
 				prevTime = p.Time
 				prevValue = p.Value
 			}
@@ -658,11 +665,10 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited ma
 		nextValue.Mul(v)
 		return nextValue, nil
 	}
-	d1 := when.Sub(prevTime)
-	d2 := nextTime.Sub(prevTime)
-	i := big.NewInt(nextValue.Amount - prevValue.Amount)
-	i.Mul(i, big.NewInt(int64(d1)))
-	i.Quo(i, big.NewInt(int64(d2)))
+	i := big.NewInt(nextValue.Amount)
+	i.Sub(i, big.NewInt(prevValue.Amount))
+	i.Mul(i, elapsed(prevTime, when))
+	i.Quo(i, elapsed(prevTime, nextTime))
 	i.Add(i, big.NewInt(prevValue.Amount))
 	prevValue.Amount = i.Int64()
 	prevValue.Mul(v)
-- 
2.43.0


From 937ad907a54a670788292085284f4826ebb88fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 46/58] fix: convert with prices dated at the zero time

---
 accounting.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/accounting.go b/accounting.go
index 6def1b3..29ba747 100644
--- a/accounting.go
+++ b/accounting.go
@@ -604,6 +604,7 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited ma
 		return v, nil
 	}
 	var prevTime, nextTime time.Time
+	var hasPrev, hasNext bool // because a price could have the zero time
 	var prevValue, nextValue Value
 	prevValue = v
 	for _, p := range l.Prices {
@@ -618,31 +619,31 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited ma
 			return tmp, nil
 		}
 		if p.Time.Before(when) {
-			prevTime = p.Time
+			prevTime, hasPrev = p.Time, true
 			prevValue = p.Value
 			continue
 		}
-		nextTime = p.Time
+		nextTime, hasNext = p.Time, true
 		nextValue = p.Value
 		break
 	}
-	if prevTime == (time.Time{}) && nextTime == (time.Time{}) { // no price match
+	if !hasPrev && !hasNext { // no price match
 		for _, p := range l.Prices {
 			if p.Currency != v.Currency || visited[p.Value.Currency] {
 				continue
 			}
 			if p.Time.Before(when) {
-				prevTime = p.Time
+				prevTime, hasPrev = p.Time, true
 				prevValue = p.Value
 				continue
 			}
-			if prevTime == (time.Time{}) || elapsed(when, p.Time).Cmp(elapsed(prevTime, when)) < 0 {
-				prevTime = p.Time
+			if !hasPrev || elapsed(when, p.Time).Cmp(elapsed(prevTime, when)) < 0 {
+				prevTime, hasPrev = p.Time, true
 				prevValue = p.Value
 			}
 			break
 		}
-		if prevTime == (time.Time{}) {
+		if !hasPrev {
 			//fmt.Printf("Convert(%s,%s,%s) = %s (3)\n", v, when.Format("2006-01-02"), currency.Name, v)
 			return v, fmt.Errorf("could not convert %q to %q", v, currency.Name)
 		}
@@ -657,11 +658,11 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited ma
 		}
 		return nv, nil
 	}
-	if nextTime == (time.Time{}) {
+	if !hasNext {
 		prevValue.Mul(v)
 		return prevValue, nil
 	}
-	if prevTime == (time.Time{}) {
+	if !hasPrev {
 		nextValue.Mul(v)
 		return nextValue, nil
 	}
-- 
2.43.0


From ed32b4b5499ec9697b334d3c99acb37829a110f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 47/58] fix: do not hold the lock of the registry while a
 backend opens a source

---
 accounting.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/accounting.go b/accounting.go
index 29ba747..d447d59 100644
--- a/accounting.go
+++ b/accounting.go
@@ -27,7 +27,6 @@ func Open(dataSource string) (*Ledger, error) {
 	}
 	backend := url.Scheme
 	driversMu.RLock()
-	defer driversMu.RUnlock()
 	if backend == "" {
 		for _, b := range defaultSchemes {
 			if drivers[b] != nil {
@@ -36,13 +35,15 @@ func Open(dataSource string) (*Ledger, error) {
 			}
 		}
 	}
-	if drivers[backend] == nil {
+	driver := drivers[backend]
+	driversMu.RUnlock() // before driver.Open(), which could call Open() or Register()
+	if driver == nil {
 		return nil, errors.New("accounting.Open: Backend " + backend + " is not registered.")
 	}
 	b := new(Backend)
 	b.ready = true
 	b.Ledger = new(Ledger)
-	b.Ledger.connection, err = drivers[backend].Open(dataSource, b)
+	b.Ledger.connection, err = driver.Open(dataSource, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 7cb8255700676cf1d9f331928e40bdae1b969a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 48/58] fix: number of days of stats in ledgers longer than 292
 years

---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index af29425..d74c5a0 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -173,7 +173,7 @@ func runStats(L *accounting.Ledger, flags flags, args []string) error {
 		lastYear, lastMonth, lastDay := last.Date()
 		end := time.Date(lastYear, lastMonth, lastDay, 0, 0, 0, 0, time.UTC)
 		start := time.Date(firstYear, firstMonth, firstDay, 0, 0, 0, 0, time.UTC)
-		days := int(end.Sub(start).Hours()/24.0) + 1
+		days := int((end.Unix()-start.Unix())/(24*60*60)) + 1 // a time.Duration could not be so long
 
 		fmt.Printf("Transaction span : %s to %s (%d days)\n", first.Format("2006-01-02"),
 			last.Format("2006-01-02"), days)
-- 
2.43.0


From bcf022cc4a35a1333c4e2fecfc55ede56e9bf8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 49/58] fix: a currency given twice counted twice in balance

---
 cmd/ledger/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index d74c5a0..30ebb0d 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -107,6 +107,7 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 				for _, c := range flags.currency {
 					if v.Currency.Name == c {
 						bal.Add(v)
+						break // even if it is given more than once
 					}
 				}
 			}
-- 
2.43.0


From 4b532cae093922f7843ff93bde8b94fb3c874a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:28 +0000
Subject: [PATCH 50/58] fix: income statements left out the accounts Income and
 Expense themselves, or included others

---
 cmd/ledger/main.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 30ebb0d..392cd96 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -198,6 +198,11 @@ func runPrint(L *accounting.Ledger, flags flags, args []string) error {
 	return nil
 }
 
+// isUnder returns whether an account has this full name, or is below the one which has it.
+func isUnder(a *accounting.Account, name string) bool {
+	return a.FullName() == name || strings.HasPrefix(a.FullName(), name+":")
+}
+
 func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error {
 	var incomeAccounts, expenseAccounts []*accounting.Account
 	var incomes, expenses []struct {
@@ -210,16 +215,16 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 
 	if len(args) == 0 {
 		for _, a := range L.Accounts {
-			if strings.HasPrefix(a.FullName(), "Income:") {
+			if isUnder(a, "Income") {
 				incomeAccounts = append(incomeAccounts, a)
 			}
-			if strings.HasPrefix(a.FullName(), "Expense:") {
+			if isUnder(a, "Expense") {
 				expenseAccounts = append(expenseAccounts, a)
 			}
 		}
 	} else {
 		for _, a := range L.Accounts {
-			if !strings.HasPrefix(a.FullName(), "Income") {
+			if !isUnder(a, "Income") {
 				continue
 			}
 			for _, b := range args {
@@ -230,7 +235,7 @@ func runIncomeStatement(L *accounting.Ledger, flags flags, args []string) error
 			}
 		}
 		for _, a := range L.Accounts {
-			if !strings.HasPrefix(a.FullName(), "Expense") {
+			if !isUnder(a, "Expense") {
 				continue
 			}
 			for _, b := range args {
-- 
2.43.0


From d528da56109ba2dfb0e240940bf04fa3333be314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:24 +0000
Subject: [PATCH 51/58] fix: log a wrongly indented comment instead of printing
 it among the reports

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 418e224..52cafb2 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -247,7 +247,7 @@ func (l *ledgerConnection) readJournal() error {
 					var split *accounting.Split = transaction.Splits[len(transaction.Splits)-1]
 					l.addComment(split, comment)
 				default:
-					fmt.Printf("%s:%d: Wrong indented comment: \"%s\"\n", line.Filename, line.LineNum, comment)
+					log.Printf("%s:%d: Wrong indented comment: \"%s\"", line.Filename, line.LineNum, comment)
 				}
 			}
 			continue
-- 
2.43.0


From 2355d97383a8d258b8b6ad0f1c813a0ff6fa7e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:35 +0000
Subject: [PATCH 52/58] fix: level of an account that comes before its parent

---
 accounting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index d447d59..1a49e28 100644
--- a/accounting.go
+++ b/accounting.go
@@ -578,6 +578,7 @@ func (b Balance) Dup() Balance {
 func insertAccount(where *[]*Account, account *Account) {
 	*where = append(*where, account)
 	for _, a := range account.Children {
+		a.Level = account.Level + 1
 		insertAccount(where, a)
 	}
 }
@@ -688,7 +689,6 @@ func (l *Ledger) Fill() error {
 	}
 	for _, a := range l.Accounts {
 		if a.Parent != nil {
-			a.Level = a.Parent.Level + 1
 			a.Parent.Children = append(a.Parent.Children, a)
 		}
 	}
-- 
2.43.0


From 5655b52b3393a10e571d7294182e3e3d91b67e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:04 +0000
Subject: [PATCH 53/58] fix: errors while reading a PostgreSQL database are
 returned

They made the program panic, except those in the middle of the rows of
a query, after which an incomplete ledger was returned.
---
 backend/postgres/postgres.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index bdcdcb1..48163e4 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -45,8 +45,13 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.db = db
 	conn.backend = backend
 	conn.ledger = backend.Ledger
-	getAccounts(conn)
-	getTransactions(conn)
+	if err = getAccounts(conn); err == nil {
+		err = getTransactions(conn)
+	}
+	if err != nil {
+		db.Close()
+		return nil, fmt.Errorf("psql.Open: %w", err)
+	}
 	return conn, nil
 }
 
@@ -58,7 +63,7 @@ func (c *conn) Close() error {
 	return c.db.Close()
 }
 
-func getAccounts(c *conn) {
+func getAccounts(c *conn) error {
 	ledger := c.ledger
 	query := `
 		SELECT a.id, a.name, COALESCE(a.code, '') AS code,
@@ -68,8 +73,9 @@ func getAccounts(c *conn) {
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
-		panic(err)
+		return err
 	}
+	defer rows.Close()
 	ledger.Accounts = nil
 	for rows.Next() {
 		var (
@@ -80,7 +86,7 @@ func getAccounts(c *conn) {
 			acc     accounting.Account
 		)
 		if err := rows.Scan(&id, &name, &code, &balance); err != nil {
-			panic(err)
+			return err
 		}
 		acc.ID = ID(id)
 		acc.Name = name
@@ -88,9 +94,10 @@ func getAccounts(c *conn) {
 		// acc.Balance = balance
 		ledger.Accounts = append(ledger.Accounts, &acc)
 	}
+	return rows.Err()
 }
 
-func getTransactions(c *conn) {
+func getTransactions(c *conn) error {
 	ledger := c.ledger
 	idAccount := make(map[accounting.ID]*accounting.Account)
 	for i, a := range ledger.Accounts {
@@ -101,8 +108,9 @@ func getTransactions(c *conn) {
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
-		panic(err)
+		return err
 	}
+	defer rows.Close()
 	for rows.Next() {
 		var (
 			date    time.Time
@@ -113,7 +121,7 @@ func getTransactions(c *conn) {
 			balance int
 		)
 		if err := rows.Scan(&date, &tid, &aid, &desc, &value, &balance); err != nil {
-			panic(err)
+			return err
 		}
 		if l := len(ledger.Transactions); l == 0 || ledger.Transactions[l-1].ID != tid {
 			ledger.Transactions = append(ledger.Transactions, &accounting.Transaction{
@@ -128,7 +136,7 @@ func getTransactions(c *conn) {
 		tra := ledger.Transactions[len(ledger.Transactions)-1]
 		tra.Splits = append(tra.Splits, split)
 	}
-	return
+	return rows.Err()
 }
 
 // Flush is a no-op in SQL: all the writes to the database are unbuffered
-- 
2.43.0


From e62c767b3f2444e475d64063db628dcbe86a7a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:05 +0000
Subject: [PATCH 54/58] fix: transactions are read from the tables that package
 postgres documents

A view called "money", which is not among the tables that the
documentation asks for, was needed.
---
 backend/postgres/postgres.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index 48163e4..2ffd344 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -104,7 +104,10 @@ func getTransactions(c *conn) error {
 		idAccount[a.ID] = ledger.Accounts[i]
 	}
 	query := `
-		SELECT datetime,transaction_id,account_id,description,(100*value)::integer,(100*balance)::integer FROM money
+		SELECT t.datetime, t.id, s.account_id, COALESCE(t.description, '') AS description, (100*s.value)::integer AS value
+		FROM split s
+		JOIN transaction t ON t.id=s.transaction_id
+		ORDER BY t.datetime, t.id
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
@@ -113,14 +116,13 @@ func getTransactions(c *conn) error {
 	defer rows.Close()
 	for rows.Next() {
 		var (
-			date    time.Time
-			tid     ID
-			aid     ID
-			desc    string
-			value   int64
-			balance int
+			date  time.Time
+			tid   ID
+			aid   ID
+			desc  string
+			value int64
 		)
-		if err := rows.Scan(&date, &tid, &aid, &desc, &value, &balance); err != nil {
+		if err := rows.Scan(&date, &tid, &aid, &desc, &value); err != nil {
 			return err
 		}
 		if l := len(ledger.Transactions); l == 0 || ledger.Transactions[l-1].ID != tid {
-- 
2.43.0


From de41e5c2d421e276158af1bc6a0a6e15c51cd670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 55/58] fix: amounts of PostgreSQL databases

They were stored in cents instead of units of 10^-8, and without a
currency, so that they were taken as omitted amounts: transactions with
two postings were refused.  The sum of every account, which is not
used, made opening fail when it was more than 2^31 cents.
---
 backend/postgres/postgres.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index 2ffd344..cf59d0f 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -20,6 +20,8 @@ type conn struct {
 	updated time.Time
 	backend *accounting.Backend
 	ledger  *accounting.Ledger
+
+	currency accounting.Currency // just one currency for now
 }
 
 func (id ID) String() string {
@@ -43,6 +45,7 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	// TODO I should check the SQL schema...
 	conn := new(conn)
 	conn.db = db
+	conn.currency.Precision = 2
 	conn.backend = backend
 	conn.ledger = backend.Ledger
 	if err = getAccounts(conn); err == nil {
@@ -66,10 +69,9 @@ func (c *conn) Close() error {
 func getAccounts(c *conn) error {
 	ledger := c.ledger
 	query := `
-		SELECT a.id, a.name, COALESCE(a.code, '') AS code,
-			COALESCE((100*sum(s.value))::integer, 0) AS balance
+		SELECT a.id, a.name, COALESCE(a.code, '') AS code
 		FROM account a
-		LEFT JOIN split s ON a.id=s.account_id GROUP BY a.id
+		ORDER BY a.id
 	`
 	rows, err := c.db.Query(query)
 	if err != nil {
@@ -79,19 +81,17 @@ func getAccounts(c *conn) error {
 	ledger.Accounts = nil
 	for rows.Next() {
 		var (
-			id      int
-			name    string
-			code    string
-			balance int
-			acc     accounting.Account
+			id   int
+			name string
+			code string
+			acc  accounting.Account
 		)
-		if err := rows.Scan(&id, &name, &code, &balance); err != nil {
+		if err := rows.Scan(&id, &name, &code); err != nil {
 			return err
 		}
 		acc.ID = ID(id)
 		acc.Name = name
 		acc.Code = code
-		// acc.Balance = balance
 		ledger.Accounts = append(ledger.Accounts, &acc)
 	}
 	return rows.Err()
@@ -104,7 +104,7 @@ func getTransactions(c *conn) error {
 		idAccount[a.ID] = ledger.Accounts[i]
 	}
 	query := `
-		SELECT t.datetime, t.id, s.account_id, COALESCE(t.description, '') AS description, (100*s.value)::integer AS value
+		SELECT t.datetime, t.id, s.account_id, COALESCE(t.description, '') AS description, (100000000*s.value)::bigint AS value
 		FROM split s
 		JOIN transaction t ON t.id=s.transaction_id
 		ORDER BY t.datetime, t.id
@@ -133,8 +133,8 @@ func getTransactions(c *conn) error {
 		}
 		split := new(accounting.Split)
 		split.Account = idAccount[aid]
-		split.Value.Currency = nil
-		split.Value.Amount = value
+		split.Value.Currency = &c.currency
+		split.Value.Amount = value // already multiplied by accounting.U
 		tra := ledger.Transactions[len(ledger.Transactions)-1]
 		tra.Splits = append(tra.Splits, split)
 	}
-- 
2.43.0


From a1c570d649c04fb585201512d8fc5d98f9611004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 56/58] fix: parents of the accounts of PostgreSQL databases

They were not read, so that every account was a root.
---
 backend/postgres/postgres.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/backend/postgres/postgres.go b/backend/postgres/postgres.go
index cf59d0f..e9f28d8 100644
--- a/backend/postgres/postgres.go
+++ b/backend/postgres/postgres.go
@@ -69,7 +69,7 @@ func (c *conn) Close() error {
 func getAccounts(c *conn) error {
 	ledger := c.ledger
 	query := `
-		SELECT a.id, a.name, COALESCE(a.code, '') AS code
+		SELECT a.id, a.parent_id, a.name, COALESCE(a.code, '') AS code
 		FROM account a
 		ORDER BY a.id
 	`
@@ -79,22 +79,43 @@ func getAccounts(c *conn) error {
 	}
 	defer rows.Close()
 	ledger.Accounts = nil
+	idAccount := make(map[int64]*accounting.Account)
+	idParent := make(map[*accounting.Account]sql.NullInt64)
 	for rows.Next() {
 		var (
-			id   int
-			name string
-			code string
-			acc  accounting.Account
+			id     int
+			parent sql.NullInt64
+			name   string
+			code   string
+			acc    accounting.Account
 		)
-		if err := rows.Scan(&id, &name, &code); err != nil {
+		if err := rows.Scan(&id, &parent, &name, &code); err != nil {
 			return err
 		}
 		acc.ID = ID(id)
 		acc.Name = name
 		acc.Code = code
 		ledger.Accounts = append(ledger.Accounts, &acc)
+		idAccount[int64(id)] = &acc
+		idParent[&acc] = parent
 	}
-	return rows.Err()
+	if err := rows.Err(); err != nil {
+		return err
+	}
+	for _, a := range ledger.Accounts {
+		if parent := idParent[a]; parent.Valid {
+			a.Parent = idAccount[parent.Int64]
+		}
+	}
+	for _, a := range ledger.Accounts {
+		n := 0
+		for p := a.Parent; p != nil; p = p.Parent {
+			if n++; n > len(ledger.Accounts) {
+				return fmt.Errorf("account %s is among its own ancestors", a.ID)
+			}
+		}
+	}
+	return nil
 }
 
 func getTransactions(c *conn) error {
-- 
2.43.0


From ea0a1ef36cef147c227027888cfa9e3e84a7be0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 57/58] fix: amounts of zero without currency in an exported
 journal

---
 backend/ledger/ledger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 7332b4d..735b504 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -77,7 +77,7 @@ func unnamedCurrency(ledger *accounting.Ledger) *accounting.Currency {
 				continue
 			}
 			if c := s.Value.Currency; c != nil && isUnnamed(c) {
-				if s.Value.Amount != 0 || seen[c] {
+				if s.Value.Amount != 0 || seen[c] || c.Decimal != "" { // only amounts that were read set their decimal sign
 					return c
 				}
 				seen[c] = true
-- 
2.43.0


From cf969f62567cf4d677e93f2de2cc347fade26759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 58/58] fix: the level of an account that has no parent any
 more is zero

---
 accounting.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/accounting.go b/accounting.go
index 1a49e28..632d5f8 100644
--- a/accounting.go
+++ b/accounting.go
@@ -695,6 +695,7 @@ func (l *Ledger) Fill() error {
 	var newAccounts []*Account
 	for _, a := range l.Accounts {
 		if a.Parent == nil {
+			a.Level = 0 // it could have had a parent before
 			insertAccount(&newAccounts, a)
 		}
 	}
-- 
2.43.0

