package main

// Code generated: connections with every subset of the optional operations.

func newConnection(mask int, f *fake) connection {
	b := basic{f}
	switch mask {
	case 0:
		return struct {
			basic
		}{b}
	case 1:
		return struct {
			basic
			mAccount
		}{b, mAccount{f}}
	case 2:
		return struct {
			basic
			mTransactionsInAccount
		}{b, mTransactionsInAccount{f}}
	case 3:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
		}{b, mAccount{f}, mTransactionsInAccount{f}}
	case 4:
		return struct {
			basic
			mTransactionsInInterval
		}{b, mTransactionsInInterval{f}}
	case 5:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
		}{b, mAccount{f}, mTransactionsInInterval{f}}
	case 6:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}}
	case 7:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}}
	case 8:
		return struct {
			basic
			mNewAccount
		}{b, mNewAccount{f}}
	case 9:
		return struct {
			basic
			mAccount
			mNewAccount
		}{b, mAccount{f}, mNewAccount{f}}
	case 10:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
		}{b, mTransactionsInAccount{f}, mNewAccount{f}}
	case 11:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}}
	case 12:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
		}{b, mTransactionsInInterval{f}, mNewAccount{f}}
	case 13:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}}
	case 14:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}}
	case 15:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}}
	case 16:
		return struct {
			basic
			mEditAccount
		}{b, mEditAccount{f}}
	case 17:
		return struct {
			basic
			mAccount
			mEditAccount
		}{b, mAccount{f}, mEditAccount{f}}
	case 18:
		return struct {
			basic
			mTransactionsInAccount
			mEditAccount
		}{b, mTransactionsInAccount{f}, mEditAccount{f}}
	case 19:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mEditAccount
		}{b, mAccount{f}, mTransactionsInAccount{f}, mEditAccount{f}}
	case 20:
		return struct {
			basic
			mTransactionsInInterval
			mEditAccount
		}{b, mTransactionsInInterval{f}, mEditAccount{f}}
	case 21:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mEditAccount
		}{b, mAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}}
	case 22:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}}
	case 23:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}}
	case 24:
		return struct {
			basic
			mNewAccount
			mEditAccount
		}{b, mNewAccount{f}, mEditAccount{f}}
	case 25:
		return struct {
			basic
			mAccount
			mNewAccount
			mEditAccount
		}{b, mAccount{f}, mNewAccount{f}, mEditAccount{f}}
	case 26:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
			mEditAccount
		}{b, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}}
	case 27:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}}
	case 28:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
			mEditAccount
		}{b, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}}
	case 29:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}}
	case 30:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}}
	case 31:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}}
	case 32:
		return struct {
			basic
			mNewTransaction
		}{b, mNewTransaction{f}}
	case 33:
		return struct {
			basic
			mAccount
			mNewTransaction
		}{b, mAccount{f}, mNewTransaction{f}}
	case 34:
		return struct {
			basic
			mTransactionsInAccount
			mNewTransaction
		}{b, mTransactionsInAccount{f}, mNewTransaction{f}}
	case 35:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewTransaction{f}}
	case 36:
		return struct {
			basic
			mTransactionsInInterval
			mNewTransaction
		}{b, mTransactionsInInterval{f}, mNewTransaction{f}}
	case 37:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewTransaction
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewTransaction{f}}
	case 38:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewTransaction{f}}
	case 39:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewTransaction{f}}
	case 40:
		return struct {
			basic
			mNewAccount
			mNewTransaction
		}{b, mNewAccount{f}, mNewTransaction{f}}
	case 41:
		return struct {
			basic
			mAccount
			mNewAccount
			mNewTransaction
		}{b, mAccount{f}, mNewAccount{f}, mNewTransaction{f}}
	case 42:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
		}{b, mTransactionsInAccount{f}, mNewAccount{f}, mNewTransaction{f}}
	case 43:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}, mNewTransaction{f}}
	case 44:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
		}{b, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}}
	case 45:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}}
	case 46:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}}
	case 47:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}}
	case 48:
		return struct {
			basic
			mEditAccount
			mNewTransaction
		}{b, mEditAccount{f}, mNewTransaction{f}}
	case 49:
		return struct {
			basic
			mAccount
			mEditAccount
			mNewTransaction
		}{b, mAccount{f}, mEditAccount{f}, mNewTransaction{f}}
	case 50:
		return struct {
			basic
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
		}{b, mTransactionsInAccount{f}, mEditAccount{f}, mNewTransaction{f}}
	case 51:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mEditAccount{f}, mNewTransaction{f}}
	case 52:
		return struct {
			basic
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
		}{b, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}}
	case 53:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
		}{b, mAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}}
	case 54:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}}
	case 55:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}}
	case 56:
		return struct {
			basic
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}}
	case 57:
		return struct {
			basic
			mAccount
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, mAccount{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}}
	case 58:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}}
	case 59:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}}
	case 60:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}}
	case 61:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}}
	case 62:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}}
	case 63:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}}
	case 64:
		return struct {
			basic
			mEditTransaction
		}{b, mEditTransaction{f}}
	case 65:
		return struct {
			basic
			mAccount
			mEditTransaction
		}{b, mAccount{f}, mEditTransaction{f}}
	case 66:
		return struct {
			basic
			mTransactionsInAccount
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mEditTransaction{f}}
	case 67:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mEditTransaction{f}}
	case 68:
		return struct {
			basic
			mTransactionsInInterval
			mEditTransaction
		}{b, mTransactionsInInterval{f}, mEditTransaction{f}}
	case 69:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInInterval{f}, mEditTransaction{f}}
	case 70:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditTransaction{f}}
	case 71:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditTransaction{f}}
	case 72:
		return struct {
			basic
			mNewAccount
			mEditTransaction
		}{b, mNewAccount{f}, mEditTransaction{f}}
	case 73:
		return struct {
			basic
			mAccount
			mNewAccount
			mEditTransaction
		}{b, mAccount{f}, mNewAccount{f}, mEditTransaction{f}}
	case 74:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mNewAccount{f}, mEditTransaction{f}}
	case 75:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}, mEditTransaction{f}}
	case 76:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
		}{b, mTransactionsInInterval{f}, mNewAccount{f}, mEditTransaction{f}}
	case 77:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditTransaction{f}}
	case 78:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditTransaction{f}}
	case 79:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditTransaction{f}}
	case 80:
		return struct {
			basic
			mEditAccount
			mEditTransaction
		}{b, mEditAccount{f}, mEditTransaction{f}}
	case 81:
		return struct {
			basic
			mAccount
			mEditAccount
			mEditTransaction
		}{b, mAccount{f}, mEditAccount{f}, mEditTransaction{f}}
	case 82:
		return struct {
			basic
			mTransactionsInAccount
			mEditAccount
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mEditAccount{f}, mEditTransaction{f}}
	case 83:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mEditAccount
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mEditAccount{f}, mEditTransaction{f}}
	case 84:
		return struct {
			basic
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
		}{b, mTransactionsInInterval{f}, mEditAccount{f}, mEditTransaction{f}}
	case 85:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mEditTransaction{f}}
	case 86:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mEditTransaction{f}}
	case 87:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mEditTransaction{f}}
	case 88:
		return struct {
			basic
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}}
	case 89:
		return struct {
			basic
			mAccount
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, mAccount{f}, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}}
	case 90:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}}
	case 91:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}}
	case 92:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}}
	case 93:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}}
	case 94:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}}
	case 95:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}}
	case 96:
		return struct {
			basic
			mNewTransaction
			mEditTransaction
		}{b, mNewTransaction{f}, mEditTransaction{f}}
	case 97:
		return struct {
			basic
			mAccount
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 98:
		return struct {
			basic
			mTransactionsInAccount
			mNewTransaction
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 99:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 100:
		return struct {
			basic
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
		}{b, mTransactionsInInterval{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 101:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 102:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 103:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 104:
		return struct {
			basic
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 105:
		return struct {
			basic
			mAccount
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 106:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 107:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 108:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 109:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 110:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 111:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 112:
		return struct {
			basic
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 113:
		return struct {
			basic
			mAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 114:
		return struct {
			basic
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 115:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 116:
		return struct {
			basic
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 117:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 118:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 119:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 120:
		return struct {
			basic
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 121:
		return struct {
			basic
			mAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 122:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 123:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 124:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 125:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 126:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 127:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}}
	case 128:
		return struct {
			basic
			mFlush
		}{b, mFlush{f}}
	case 129:
		return struct {
			basic
			mAccount
			mFlush
		}{b, mAccount{f}, mFlush{f}}
	case 130:
		return struct {
			basic
			mTransactionsInAccount
			mFlush
		}{b, mTransactionsInAccount{f}, mFlush{f}}
	case 131:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mFlush{f}}
	case 132:
		return struct {
			basic
			mTransactionsInInterval
			mFlush
		}{b, mTransactionsInInterval{f}, mFlush{f}}
	case 133:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mFlush{f}}
	case 134:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mFlush{f}}
	case 135:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mFlush{f}}
	case 136:
		return struct {
			basic
			mNewAccount
			mFlush
		}{b, mNewAccount{f}, mFlush{f}}
	case 137:
		return struct {
			basic
			mAccount
			mNewAccount
			mFlush
		}{b, mAccount{f}, mNewAccount{f}, mFlush{f}}
	case 138:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
			mFlush
		}{b, mTransactionsInAccount{f}, mNewAccount{f}, mFlush{f}}
	case 139:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}, mFlush{f}}
	case 140:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
			mFlush
		}{b, mTransactionsInInterval{f}, mNewAccount{f}, mFlush{f}}
	case 141:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mFlush{f}}
	case 142:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mFlush{f}}
	case 143:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mFlush{f}}
	case 144:
		return struct {
			basic
			mEditAccount
			mFlush
		}{b, mEditAccount{f}, mFlush{f}}
	case 145:
		return struct {
			basic
			mAccount
			mEditAccount
			mFlush
		}{b, mAccount{f}, mEditAccount{f}, mFlush{f}}
	case 146:
		return struct {
			basic
			mTransactionsInAccount
			mEditAccount
			mFlush
		}{b, mTransactionsInAccount{f}, mEditAccount{f}, mFlush{f}}
	case 147:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mEditAccount
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mEditAccount{f}, mFlush{f}}
	case 148:
		return struct {
			basic
			mTransactionsInInterval
			mEditAccount
			mFlush
		}{b, mTransactionsInInterval{f}, mEditAccount{f}, mFlush{f}}
	case 149:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mEditAccount
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mFlush{f}}
	case 150:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mFlush{f}}
	case 151:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mFlush{f}}
	case 152:
		return struct {
			basic
			mNewAccount
			mEditAccount
			mFlush
		}{b, mNewAccount{f}, mEditAccount{f}, mFlush{f}}
	case 153:
		return struct {
			basic
			mAccount
			mNewAccount
			mEditAccount
			mFlush
		}{b, mAccount{f}, mNewAccount{f}, mEditAccount{f}, mFlush{f}}
	case 154:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mFlush
		}{b, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}, mFlush{f}}
	case 155:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}, mFlush{f}}
	case 156:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mFlush
		}{b, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mFlush{f}}
	case 157:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mFlush{f}}
	case 158:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mFlush{f}}
	case 159:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mFlush{f}}
	case 160:
		return struct {
			basic
			mNewTransaction
			mFlush
		}{b, mNewTransaction{f}, mFlush{f}}
	case 161:
		return struct {
			basic
			mAccount
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 162:
		return struct {
			basic
			mTransactionsInAccount
			mNewTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 163:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 164:
		return struct {
			basic
			mTransactionsInInterval
			mNewTransaction
			mFlush
		}{b, mTransactionsInInterval{f}, mNewTransaction{f}, mFlush{f}}
	case 165:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewTransaction{f}, mFlush{f}}
	case 166:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewTransaction{f}, mFlush{f}}
	case 167:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewTransaction{f}, mFlush{f}}
	case 168:
		return struct {
			basic
			mNewAccount
			mNewTransaction
			mFlush
		}{b, mNewAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 169:
		return struct {
			basic
			mAccount
			mNewAccount
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mNewAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 170:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mNewAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 171:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 172:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mFlush
		}{b, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 173:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 174:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 175:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 176:
		return struct {
			basic
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 177:
		return struct {
			basic
			mAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 178:
		return struct {
			basic
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 179:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 180:
		return struct {
			basic
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 181:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 182:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 183:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 184:
		return struct {
			basic
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 185:
		return struct {
			basic
			mAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 186:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 187:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 188:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 189:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 190:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 191:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mFlush{f}}
	case 192:
		return struct {
			basic
			mEditTransaction
			mFlush
		}{b, mEditTransaction{f}, mFlush{f}}
	case 193:
		return struct {
			basic
			mAccount
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 194:
		return struct {
			basic
			mTransactionsInAccount
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 195:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 196:
		return struct {
			basic
			mTransactionsInInterval
			mEditTransaction
			mFlush
		}{b, mTransactionsInInterval{f}, mEditTransaction{f}, mFlush{f}}
	case 197:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mEditTransaction{f}, mFlush{f}}
	case 198:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditTransaction{f}, mFlush{f}}
	case 199:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditTransaction{f}, mFlush{f}}
	case 200:
		return struct {
			basic
			mNewAccount
			mEditTransaction
			mFlush
		}{b, mNewAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 201:
		return struct {
			basic
			mAccount
			mNewAccount
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mNewAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 202:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mNewAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 203:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 204:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
			mFlush
		}{b, mTransactionsInInterval{f}, mNewAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 205:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 206:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 207:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 208:
		return struct {
			basic
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 209:
		return struct {
			basic
			mAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 210:
		return struct {
			basic
			mTransactionsInAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 211:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 212:
		return struct {
			basic
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mTransactionsInInterval{f}, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 213:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 214:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 215:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 216:
		return struct {
			basic
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 217:
		return struct {
			basic
			mAccount
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 218:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 219:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 220:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 221:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 222:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 223:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mEditTransaction{f}, mFlush{f}}
	case 224:
		return struct {
			basic
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 225:
		return struct {
			basic
			mAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 226:
		return struct {
			basic
			mTransactionsInAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 227:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 228:
		return struct {
			basic
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mTransactionsInInterval{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 229:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 230:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 231:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 232:
		return struct {
			basic
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 233:
		return struct {
			basic
			mAccount
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 234:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 235:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 236:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 237:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 238:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 239:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 240:
		return struct {
			basic
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 241:
		return struct {
			basic
			mAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 242:
		return struct {
			basic
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 243:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 244:
		return struct {
			basic
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 245:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 246:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 247:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 248:
		return struct {
			basic
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 249:
		return struct {
			basic
			mAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 250:
		return struct {
			basic
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 251:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 252:
		return struct {
			basic
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 253:
		return struct {
			basic
			mAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 254:
		return struct {
			basic
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	case 255:
		return struct {
			basic
			mAccount
			mTransactionsInAccount
			mTransactionsInInterval
			mNewAccount
			mEditAccount
			mNewTransaction
			mEditTransaction
			mFlush
		}{b, mAccount{f}, mTransactionsInAccount{f}, mTransactionsInInterval{f}, mNewAccount{f}, mEditAccount{f}, mNewTransaction{f}, mEditTransaction{f}, mFlush{f}}
	}
	panic("mask")
}
