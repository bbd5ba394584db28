package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"

	"github.com/leonelquinteros/gotext"
)

// PCall is a call of a package-level function.
type PCall struct {
	Fn     string
	Dom    string
	ID     string
	Plural string
	Ctx    string
	N      int
	Langs  []string
	Args   []interface{}
}

func (p PCall) String() string {
	return fmt.Sprintf("%s(dom=%q id=%q plural=%q n=%d ctx=%q langs=%q args=%v)", p.Fn, p.Dom, p.ID, p.Plural, p.N, p.Ctx, p.Langs, p.Args)
}

var lookupFns = []string{"Get", "GetN", "GetD", "GetND", "GetC", "GetNC", "GetDC", "GetNDC"}
var queryFns = []string{"IsTranslated", "IsTranslatedN", "IsTranslatedD", "IsTranslatedND", "IsTranslatedC", "IsTranslatedNC", "IsTranslatedDC", "IsTranslatedNDC"}

// pkgLookup makes a package-level lookup.
func pkgLookup(p PCall) string {
	switch p.Fn {
	case "Get":
		return gotext.Get(p.ID, p.Args...)
	case "GetN":
		return gotext.GetN(p.ID, p.Plural, p.N, p.Args...)
	case "GetD":
		return gotext.GetD(p.Dom, p.ID, p.Args...)
	case "GetND":
		return gotext.GetND(p.Dom, p.ID, p.Plural, p.N, p.Args...)
	case "GetC":
		return gotext.GetC(p.ID, p.Ctx, p.Args...)
	case "GetNC":
		return gotext.GetNC(p.ID, p.Plural, p.N, p.Ctx, p.Args...)
	case "GetDC":
		return gotext.GetDC(p.Dom, p.ID, p.Ctx, p.Args...)
	case "GetNDC":
		return gotext.GetNDC(p.Dom, p.ID, p.Plural, p.N, p.Ctx, p.Args...)
	}
	panic(p.Fn)
}

// locLookup makes the same lookup on a locale.
func locLookup(l *gotext.Locale, p PCall) string {
	switch p.Fn {
	case "Get":
		return l.Get(p.ID, p.Args...)
	case "GetN":
		return l.GetN(p.ID, p.Plural, p.N, p.Args...)
	case "GetD":
		return l.GetD(p.Dom, p.ID, p.Args...)
	case "GetND":
		return l.GetND(p.Dom, p.ID, p.Plural, p.N, p.Args...)
	case "GetC":
		return l.GetC(p.ID, p.Ctx, p.Args...)
	case "GetNC":
		return l.GetNC(p.ID, p.Plural, p.N, p.Ctx, p.Args...)
	case "GetDC":
		return l.GetDC(p.Dom, p.ID, p.Ctx, p.Args...)
	case "GetNDC":
		return l.GetNDC(p.Dom, p.ID, p.Plural, p.N, p.Ctx, p.Args...)
	}
	panic(p.Fn)
}

// pkgQuery makes a package-level "is translated" query.
func pkgQuery(p PCall) bool {
	switch p.Fn {
	case "IsTranslated":
		return gotext.IsTranslated(p.ID, p.Langs...)
	case "IsTranslatedN":
		return gotext.IsTranslatedN(p.ID, p.N, p.Langs...)
	case "IsTranslatedD":
		return gotext.IsTranslatedD(p.Dom, p.ID, p.Langs...)
	case "IsTranslatedND":
		return gotext.IsTranslatedND(p.Dom, p.ID, p.N, p.Langs...)
	case "IsTranslatedC":
		return gotext.IsTranslatedC(p.ID, p.Ctx, p.Langs...)
	case "IsTranslatedNC":
		return gotext.IsTranslatedNC(p.ID, p.N, p.Ctx, p.Langs...)
	case "IsTranslatedDC":
		return gotext.IsTranslatedDC(p.Dom, p.ID, p.Ctx, p.Langs...)
	case "IsTranslatedNDC":
		return gotext.IsTranslatedNDC(p.Dom, p.ID, p.N, p.Ctx, p.Langs...)
	}
	panic(p.Fn)
}

func locQuery(l *gotext.Locale, p PCall) bool {
	switch p.Fn {
	case "IsTranslated":
		return l.IsTranslated(p.ID)
	case "IsTranslatedN":
		return l.IsTranslatedN(p.ID, p.N)
	case "IsTranslatedD":
		return l.IsTranslatedD(p.Dom, p.ID)
	case "IsTranslatedND":
		return l.IsTranslatedND(p.Dom, p.ID, p.N)
	case "IsTranslatedC":
		return l.IsTranslatedC(p.ID, p.Ctx)
	case "IsTranslatedNC":
		return l.IsTranslatedNC(p.ID, p.N, p.Ctx)
	case "IsTranslatedDC":
		return l.IsTranslatedDC(p.Dom, p.ID, p.Ctx)
	case "IsTranslatedNDC":
		return l.IsTranslatedNDC(p.Dom, p.ID, p.N, p.Ctx)
	}
	panic(p.Fn)
}

func (p PCall) hasDom() bool {
	switch p.Fn {
	case "GetD", "GetND", "GetDC", "GetNDC", "IsTranslatedD", "IsTranslatedND", "IsTranslatedDC", "IsTranslatedNDC":
		return true
	}
	return false
}

func (p PCall) hasCtx() bool {
	switch p.Fn {
	case "GetC", "GetNC", "GetDC", "GetNDC", "IsTranslatedC", "IsTranslatedNC", "IsTranslatedDC", "IsTranslatedNDC":
		return true
	}
	return false
}

func (p PCall) hasN() bool {
	switch p.Fn {
	case "GetN", "GetND", "GetNC", "GetNDC", "IsTranslatedN", "IsTranslatedND", "IsTranslatedNC", "IsTranslatedNDC":
		return true
	}
	return false
}

// dispatch runs any package-level call, the result as text.
func dispatch(p PCall) string {
	switch p.Fn {
	case "SetDomain":
		gotext.SetDomain(p.Dom)
		return ""
	case "SetLanguage":
		gotext.SetLanguage(p.ID)
		return ""
	case "SetLibrary":
		gotext.SetLibrary(p.ID)
		return ""
	case "Configure":
		gotext.Configure(p.ID, p.Plural, p.Dom)
		return ""
	case "GetDomain":
		return gotext.GetDomain()
	case "GetLanguage":
		return gotext.GetLanguage()
	case "GetLanguages":
		return fmt.Sprintf("%q", gotext.GetLanguages())
	case "GetLibrary":
		return gotext.GetLibrary()
	case "GetLocales":
		return fmt.Sprint(len(gotext.GetLocales()))
	case "GetStorage":
		return fmt.Sprint(gotext.GetStorage() != nil)
	}
	if p.Fn[0] == 'I' {
		return fmt.Sprint(pkgQuery(p))
	}
	return pkgLookup(p)
}

// freshMain makes calls in a process in which nothing has been configured.
func freshMain(args []string) {
	var calls []PCall
	if err := json.Unmarshal([]byte(args[0]), &calls); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var out []string
	for _, c := range calls {
		out = append(out, dispatch(c))
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

// fresh runs calls in a new process. ok is false when the process died.
func fresh(calls []PCall) (res []string, diag string, ok bool) {
	b, _ := json.Marshal(calls)
	self, _ := os.Executable()
	cmd := exec.Command(self, "fresh", string(b))
	var errb tailBuffer
	errb.max = 8000
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Sprintf("%v: %s", err, errb.String()), false
	}
	if err := json.Unmarshal(out, &res); err != nil {
		return nil, fmt.Sprintf("%v: %q", err, out), false
	}
	return res, "", true
}
