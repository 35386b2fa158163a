// Package tableview stands in for the library of that name: instead of drawing tables
// in a terminal it writes them to the file VERIF_TABLES, one line each: the number of tables it was
// opened from (0 or more), the titles of its columns and its cells, all of them in hexadecimal. Every
// row of a table is chosen, from the first one to the last one.
package tableview

import (
	"encoding/hex"
	"fmt"
	"os"
	"strings"
)

const (
	AlignLeft = iota
	AlignCenter
	AlignRight
)

type TableView struct {
	columns  []string
	data     [][]string
	selected func(row int)
}

var depth int
var out *os.File

func NewTableView() *TableView { return new(TableView) }

func (t *TableView) FillTable(columns []string, data [][]string) { t.columns, t.data = columns, data }

func (t *TableView) SetCell(row int, column int, content string) {
	if column < 0 || column >= len(t.columns) || row < 0 {
		return
	}
	for row > len(t.data)-1 {
		t.data = append(t.data, nil)
	}
	for column > len(t.data[row])-1 {
		t.data[row] = append(t.data[row], "")
	}
	t.data[row][column] = content
}

func (t *TableView) SetExpansion(column int, expansion int)                {}
func (t *TableView) SetAlign(column int, align int)                        {}
func (t *TableView) NewCommand(ch rune, text string, action func(row int)) {}
func (t *TableView) SetSelectedFunc(action func(row int))                  { t.selected = action }

func cells(row []string, n int) string {
	var s []string
	for i := 0; i < n; i++ {
		c := ""
		if i < len(row) {
			c = row[i]
		}
		s = append(s, hex.EncodeToString([]byte(c)))
	}
	return strings.Join(s, ",")
}

func (t *TableView) Run() {
	if out == nil {
		var err error
		if out, err = os.OpenFile(os.Getenv("VERIF_TABLES"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0600); err != nil {
			panic(err)
		}
	}
	var rows []string
	for _, r := range t.data {
		rows = append(rows, cells(r, len(t.columns)))
	}
	fmt.Fprintf(out, "%d|%s|%s\n", depth, cells(t.columns, len(t.columns)), strings.Join(rows, ";"))
	if t.selected == nil || depth > 2 {
		return
	}
	depth++
	for i := range t.data {
		t.selected(i + 1)
	}
	depth--
}
