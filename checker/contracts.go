package main

// contractParseURI replaces ParseURI by what is verified of it separately:
// no input gives (nil, nil); anything else gives a URI or an error.
func (e *Engine) contractParseURI() {
	f := e.p.fn("sip.ParseURI")
	if f == nil {
		return
	}
	e.intrinsics[f.String()] = func(e *Engine, c *callCtx) []callRes {
		cc := *c
		cc.site = "contract:ParseURI"
		cc.name = "ParseURI"
		return e.externalResult(&cc)
	}
}

// contractSDPParse replaces sdp.Parse likewise.
func (e *Engine) contractSDPParse() {
	f := e.p.fn("sdp.Parse")
	if f == nil {
		return
	}
	e.intrinsics[f.String()] = func(e *Engine, c *callCtx) []callRes {
		cc := *c
		cc.site = "contract:sdp.Parse"
		cc.name = "sdp.Parse"
		return e.externalResult(&cc)
	}
}
