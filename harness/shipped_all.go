package main

import (
	"github.com/vorlif/spreak/humanize"
	_af "github.com/vorlif/spreak/humanize/locale/af"
	_ar "github.com/vorlif/spreak/humanize/locale/ar"
	_arDZ "github.com/vorlif/spreak/humanize/locale/arDZ"
	_ast "github.com/vorlif/spreak/humanize/locale/ast"
	_az "github.com/vorlif/spreak/humanize/locale/az"
	_be "github.com/vorlif/spreak/humanize/locale/be"
	_bg "github.com/vorlif/spreak/humanize/locale/bg"
	_bn "github.com/vorlif/spreak/humanize/locale/bn"
	_br "github.com/vorlif/spreak/humanize/locale/br"
	_bs "github.com/vorlif/spreak/humanize/locale/bs"
	_ca "github.com/vorlif/spreak/humanize/locale/ca"
	_ckb "github.com/vorlif/spreak/humanize/locale/ckb"
	_cs "github.com/vorlif/spreak/humanize/locale/cs"
	_cy "github.com/vorlif/spreak/humanize/locale/cy"
	_da "github.com/vorlif/spreak/humanize/locale/da"
	_de "github.com/vorlif/spreak/humanize/locale/de"
	_dsb "github.com/vorlif/spreak/humanize/locale/dsb"
	_el "github.com/vorlif/spreak/humanize/locale/el"
	_enAU "github.com/vorlif/spreak/humanize/locale/enAU"
	_enGB "github.com/vorlif/spreak/humanize/locale/enGB"
	_eo "github.com/vorlif/spreak/humanize/locale/eo"
	_es "github.com/vorlif/spreak/humanize/locale/es"
	_esAR "github.com/vorlif/spreak/humanize/locale/esAR"
	_esCO "github.com/vorlif/spreak/humanize/locale/esCO"
	_esMX "github.com/vorlif/spreak/humanize/locale/esMX"
	_esVE "github.com/vorlif/spreak/humanize/locale/esVE"
	_et "github.com/vorlif/spreak/humanize/locale/et"
	_eu "github.com/vorlif/spreak/humanize/locale/eu"
	_fa "github.com/vorlif/spreak/humanize/locale/fa"
	_fi "github.com/vorlif/spreak/humanize/locale/fi"
	_fr "github.com/vorlif/spreak/humanize/locale/fr"
	_fy "github.com/vorlif/spreak/humanize/locale/fy"
	_ga "github.com/vorlif/spreak/humanize/locale/ga"
	_gd "github.com/vorlif/spreak/humanize/locale/gd"
	_gl "github.com/vorlif/spreak/humanize/locale/gl"
	_he "github.com/vorlif/spreak/humanize/locale/he"
	_hi "github.com/vorlif/spreak/humanize/locale/hi"
	_hr "github.com/vorlif/spreak/humanize/locale/hr"
	_hsb "github.com/vorlif/spreak/humanize/locale/hsb"
	_hu "github.com/vorlif/spreak/humanize/locale/hu"
	_hy "github.com/vorlif/spreak/humanize/locale/hy"
	_ia "github.com/vorlif/spreak/humanize/locale/ia"
	_id "github.com/vorlif/spreak/humanize/locale/id"
	_ig "github.com/vorlif/spreak/humanize/locale/ig"
	_io "github.com/vorlif/spreak/humanize/locale/io"
	_is "github.com/vorlif/spreak/humanize/locale/is"
	_it "github.com/vorlif/spreak/humanize/locale/it"
	_ja "github.com/vorlif/spreak/humanize/locale/ja"
	_ka "github.com/vorlif/spreak/humanize/locale/ka"
	_kab "github.com/vorlif/spreak/humanize/locale/kab"
	_kk "github.com/vorlif/spreak/humanize/locale/kk"
	_km "github.com/vorlif/spreak/humanize/locale/km"
	_kn "github.com/vorlif/spreak/humanize/locale/kn"
	_ko "github.com/vorlif/spreak/humanize/locale/ko"
	_ky "github.com/vorlif/spreak/humanize/locale/ky"
	_lb "github.com/vorlif/spreak/humanize/locale/lb"
	_lt "github.com/vorlif/spreak/humanize/locale/lt"
	_lv "github.com/vorlif/spreak/humanize/locale/lv"
	_mk "github.com/vorlif/spreak/humanize/locale/mk"
	_ml "github.com/vorlif/spreak/humanize/locale/ml"
	_mn "github.com/vorlif/spreak/humanize/locale/mn"
	_mr "github.com/vorlif/spreak/humanize/locale/mr"
	_ms "github.com/vorlif/spreak/humanize/locale/ms"
	_my "github.com/vorlif/spreak/humanize/locale/my"
	_nb "github.com/vorlif/spreak/humanize/locale/nb"
	_ne "github.com/vorlif/spreak/humanize/locale/ne"
	_nl "github.com/vorlif/spreak/humanize/locale/nl"
	_nn "github.com/vorlif/spreak/humanize/locale/nn"
	_os "github.com/vorlif/spreak/humanize/locale/os"
	_pa "github.com/vorlif/spreak/humanize/locale/pa"
	_pl "github.com/vorlif/spreak/humanize/locale/pl"
	_pt "github.com/vorlif/spreak/humanize/locale/pt"
	_ptBR "github.com/vorlif/spreak/humanize/locale/ptBR"
	_ro "github.com/vorlif/spreak/humanize/locale/ro"
	_ru "github.com/vorlif/spreak/humanize/locale/ru"
	_sk "github.com/vorlif/spreak/humanize/locale/sk"
	_sl "github.com/vorlif/spreak/humanize/locale/sl"
	_sq "github.com/vorlif/spreak/humanize/locale/sq"
	_sr "github.com/vorlif/spreak/humanize/locale/sr"
	_srLatn "github.com/vorlif/spreak/humanize/locale/srLatn"
	_sv "github.com/vorlif/spreak/humanize/locale/sv"
	_sw "github.com/vorlif/spreak/humanize/locale/sw"
	_ta "github.com/vorlif/spreak/humanize/locale/ta"
	_te "github.com/vorlif/spreak/humanize/locale/te"
	_tg "github.com/vorlif/spreak/humanize/locale/tg"
	_th "github.com/vorlif/spreak/humanize/locale/th"
	_tk "github.com/vorlif/spreak/humanize/locale/tk"
	_tr "github.com/vorlif/spreak/humanize/locale/tr"
	_tt "github.com/vorlif/spreak/humanize/locale/tt"
	_udm "github.com/vorlif/spreak/humanize/locale/udm"
	_ug "github.com/vorlif/spreak/humanize/locale/ug"
	_uk "github.com/vorlif/spreak/humanize/locale/uk"
	_ur "github.com/vorlif/spreak/humanize/locale/ur"
	_uz "github.com/vorlif/spreak/humanize/locale/uz"
	_vi "github.com/vorlif/spreak/humanize/locale/vi"
	_zhHans "github.com/vorlif/spreak/humanize/locale/zhHans"
	_zhHant "github.com/vorlif/spreak/humanize/locale/zhHant"
)

// shipped: the language packs that come with the humanizers.
var shipped = map[string]func() *humanize.LocaleData{
	"af":     _af.New,
	"ar":     _ar.New,
	"arDZ":   _arDZ.New,
	"ast":    _ast.New,
	"az":     _az.New,
	"be":     _be.New,
	"bg":     _bg.New,
	"bn":     _bn.New,
	"br":     _br.New,
	"bs":     _bs.New,
	"ca":     _ca.New,
	"ckb":    _ckb.New,
	"cs":     _cs.New,
	"cy":     _cy.New,
	"da":     _da.New,
	"de":     _de.New,
	"dsb":    _dsb.New,
	"el":     _el.New,
	"enAU":   _enAU.New,
	"enGB":   _enGB.New,
	"eo":     _eo.New,
	"es":     _es.New,
	"esAR":   _esAR.New,
	"esCO":   _esCO.New,
	"esMX":   _esMX.New,
	"esVE":   _esVE.New,
	"et":     _et.New,
	"eu":     _eu.New,
	"fa":     _fa.New,
	"fi":     _fi.New,
	"fr":     _fr.New,
	"fy":     _fy.New,
	"ga":     _ga.New,
	"gd":     _gd.New,
	"gl":     _gl.New,
	"he":     _he.New,
	"hi":     _hi.New,
	"hr":     _hr.New,
	"hsb":    _hsb.New,
	"hu":     _hu.New,
	"hy":     _hy.New,
	"ia":     _ia.New,
	"id":     _id.New,
	"ig":     _ig.New,
	"io":     _io.New,
	"is":     _is.New,
	"it":     _it.New,
	"ja":     _ja.New,
	"ka":     _ka.New,
	"kab":    _kab.New,
	"kk":     _kk.New,
	"km":     _km.New,
	"kn":     _kn.New,
	"ko":     _ko.New,
	"ky":     _ky.New,
	"lb":     _lb.New,
	"lt":     _lt.New,
	"lv":     _lv.New,
	"mk":     _mk.New,
	"ml":     _ml.New,
	"mn":     _mn.New,
	"mr":     _mr.New,
	"ms":     _ms.New,
	"my":     _my.New,
	"nb":     _nb.New,
	"ne":     _ne.New,
	"nl":     _nl.New,
	"nn":     _nn.New,
	"os":     _os.New,
	"pa":     _pa.New,
	"pl":     _pl.New,
	"pt":     _pt.New,
	"ptBR":   _ptBR.New,
	"ro":     _ro.New,
	"ru":     _ru.New,
	"sk":     _sk.New,
	"sl":     _sl.New,
	"sq":     _sq.New,
	"sr":     _sr.New,
	"srLatn": _srLatn.New,
	"sv":     _sv.New,
	"sw":     _sw.New,
	"ta":     _ta.New,
	"te":     _te.New,
	"tg":     _tg.New,
	"th":     _th.New,
	"tk":     _tk.New,
	"tr":     _tr.New,
	"tt":     _tt.New,
	"udm":    _udm.New,
	"ug":     _ug.New,
	"uk":     _uk.New,
	"ur":     _ur.New,
	"uz":     _uz.New,
	"vi":     _vi.New,
	"zhHans": _zhHans.New,
	"zhHant": _zhHant.New,
}
