package h

import (
	"github.com/gdamore/tcell/v2"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
)

func init() {
	All["AppLarge"] = AppLarge
	All["AppMoves"] = AppMoves
}

// largeDoc: eight nodes, one with eleven outcomes, two decisions, beyond the screen.
const largeDoc = `name: Large
variables:
- variable: many
  position: [90, 20]
  given: [first]
  outcomes: [o1, o2, o3, o4, o5, o6, o7, o8, o9, o10, o11]
  table:
  - [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]
  - [5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 0]
- variable: gain
  type: utility
  given: [first, second]
  position: [0, 30]
  outcomes: [utility]
  table:
  - [8]
  - [1]
  - [2]
  - [0.5]
- variable: second
  type: decision
  given: [first, look]
  position: [60, 0]
  outcomes: [do, wait]
- variable: look
  position: [28, 9]
  given: [first, state]
  outcomes: [up, down]
  table:
  - [3, 1]
  - [1, 1]
  - [1, 4]
  - [2, 3]
- variable: single
  position: [2, 22]
  outcomes: [only]
  table:
  - [1]
- variable: state
  position: [0, 9]
  outcomes: [good, bad]
  table:
  - [0.5, 0.5]
- variable: first
  type: decision
  position: [30, 0]
  outcomes: [try, leave]
- variable: cost
  type: utility
  given: [look]
  position: [40, 30]
  outcomes: [utility]
  table:
  - [-4]
  - [0]
`

// AppLarge: any event on a larger network.
func AppLarge() {
	var ev map[string]string
	which := vh.Choose("evidence", 3)
	switch which {
	case 1:
		ev = map[string]string{"many": "o11", "single": "only"}
	case 2:
		ev = map[string]string{"many": "o10", "second": "do", "state": "bad"}
	}
	app(largeDoc, ev, func(m *appModel) {
		k := vh.Choose("node", len(m.nodes)+1)
		if k < len(m.nodes) {
			for i := k; i > 0; i-- {
				m.specialKey(tcell.KeyTab)
			}
		} else {
			// backwards to the last one and forward again
			m.specialKey(tcell.KeyBacktab)
			m.specialKey(tcell.KeyTab)
		}
		if !vh.Deep() && (k+which)%3 != 0 {
			return
		}
		if (k == 0 || vh.Deep()) && vh.Choose("state", 2) == 1 {
			for i := m.outs() - 1; i > 0; i-- {
				m.runeKey(' ')
			}
		}
		if k == 1 && vh.Choose("scrolled", 2) == 1 {
			m.graph.ScrollTo(7, 20)
			x, y, w, h := m.graph.GetInnerRect()
			m.click(vh.Int("x", x, x+w-1), vh.Int("y", y, y+h-1), []tcell.ButtonMask{tcell.ButtonPrimary, tcell.ButtonSecondary}[vh.Choose("button", 2)])
			m.check()
			return
		}
		m.event()
	})
}

// AppMoves: several nodes are moved one after another.
func AppMoves() {
	doc := []string{decisionDoc, overlapDoc, chainDoc}[vh.Choose("doc", 3)]
	app(doc, nil, func(m *appModel) {
		for i := vh.Choose("node", len(m.nodes)); i > 0; i-- {
			m.specialKey(tcell.KeyTab)
		}
		for i := 0; i < deep(3, 4); i++ {
			if i == deep(1, 2) {
				m.specialKey([]tcell.Key{tcell.KeyTab, tcell.KeyBacktab}[vh.Choose("next", 2)])
			}
			m.runeKey(rune("wasd"[vh.Choose("move", 4)]))
			m.check()
		}
		m.specialKey(tcell.KeyEnter)
		m.check()
	})
}
