package main

import "math/rand/v2"

func init() {
	props["P03"] = checkP03
}

func (c *Ctx) sessions(n int, p sessionProfile) {
	var cases []Case
	for i := 0; i < n; i++ {
		cases = append(cases, mk("session", genSession(c.rnd, p)))
	}
	c.Backward(TLC{Module: "Trace_Session", Histories: true}, cases)
}

func checkP03(c *Ctx) {
	wide := map[string]string{"MaxOpts": "2", "Langs": `{"de"}`, "Doms": `{"", "d1"}`, "Level": `"wide"`}
	c.Forward(TLC{Module: "MC_Bundle", Consts: wide}, 1000)
	// two languages, sequences of the options whose order matters
	deep := map[string]string{"MaxOpts": "3", "Langs": `{"de", "fr"}`, "Doms": `{"d1"}`, "Level": `"deep"`}
	if c.thorough() {
		deep["MaxOpts"] = "4"
	}
	c.Forward(TLC{Module: "MC_Bundle", Consts: deep}, 10000)
	if c.thorough() {
		wide["MaxOpts"], wide["Doms"] = "3", `{"d1"}`
		c.Forward(TLC{Module: "MC_Bundle", Consts: wide}, 10000)
	}
	p := defaultProfile()
	p.printers = []string{"tag"}
	p.steps = 2
	c.sessions(c.pick(2000, 20000), p)
}

func (c *Ctx) lookups(scenario string, min int) {
	size := `"small"`
	if c.thorough() {
		size = `"big"`
	}
	c.Forward(TLC{Module: "MC_Lookup", Consts: map[string]string{"Scenario": `"` + scenario + `"`, "Size": size}}, min)
}

func init() {
	props["P01"] = func(c *Ctx) {
		c.lookups("chain", 500)
		c.sessions(c.pick(1200, 8000), defaultProfile())
	}
	props["P02"] = func(c *Ctx) {
		c.lookups("access", 100)
		p := defaultProfile()
		p.printers = []string{"tag"}
		p.langs, p.families = []string{"de", "fr"}, true
		c.sessions(c.pick(800, 8000), p)
	}
	props["P04"] = func(c *Ctx) {
		c.lookups("negotiate", 100)
		// the standard matcher, and requests as they come from browsers
		p := defaultProfile()
		p.families = false
		p.langs = []string{"de", "de-AT", "de-CH", "en", "en-GB", "en-US", "pt", "pt-BR", "zh-Hans", "zh-Hant", "sr", "sr-Latn", "nb", "no", "da", "ja", "es-419", "af", "nl"}
		p.doms, p.ctxs = []string{"", "a"}, []string{""}
		p.matchers, p.printers, p.kinds, p.rules = []string{"std", "default", "default"}, []string{"tag"}, []string{"po", "mo"}, []string{"ne1"}
		p.stepKs = []string{"info", "info", "get", "supp"}
		p.requests = func(r *rand.Rand) []reqRec { return genBrowserRequest(r, p.langs) }
		p.steps = 16
		c.sessions(c.pick(1500, 20000), p)
	}
	props["P22"] = func(c *Ctx) {
		c.lookups("errors", 100)
		p := defaultProfile()
		p.stepKs = []string{"err", "err", "errw", "errw", "errm", "errm", "loc", "nil", "errnil", "get"}
		p.printers = []string{"tag", "tag", "func"}
		c.sessions(c.pick(800, 8000), p)
	}
	props["P23"] = func(c *Ctx) {
		c.lookups("chain", 500)
		p := defaultProfile()
		p.printers = []string{"tag"}
		p.stepKs = []string{"get", "get", "get", "loc", "loc", "err", "errw", "errm", "nil"}
		c.sessions(c.pick(800, 8000), p)
	}
	props["P24"] = func(c *Ctx) {
		c.lookups("format", 100)
		p := defaultProfile()
		p.families = false
		p.langs = []string{"de", "en", "fr", "ja", "ru", "de-CH", "sv", "es", "pl"}
		p.printers = []string{"default", "default", "default", "default", "tag", "func"}
		p.formats, p.steps = true, 24
		p.doms, p.ctxs = []string{"", "a"}, []string{"", "errors"}
		p.rules = []string{"ne1", "gt1"}
		p.kinds = []string{"po", "mo"}
		p.stepKs = []string{"get", "get", "get", "get", "loc", "errm", "err", "print"}
		c.sessions(c.pick(500, 8000), p)
	}
}
