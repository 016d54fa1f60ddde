// mirdump: a rustc driver that dumps the type-resolved, monomorphised MIR of a crate as JSON.
// Injected by cargo through RUSTC_WORKSPACE_WRAPPER.  It runs no program code: it only asks the
// compiler for the MIR it would generate code from and writes it down.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;

use json::J;
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_data_structures::steal::Steal;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{
    self, AggregateKind, AssertKind, Body, Const, ConstValue, Operand, Place, ProjectionElem,
    Rvalue, StatementKind, TerminatorKind,
};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};

macro_rules! nt {
    ($e:expr) => {
        with_no_visible_paths!(with_no_trimmed_paths!($e))
    };
}
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_middle::util::Providers;
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::sync::Mutex;
use std::sync::OnceLock;

static STASH: OnceLock<Mutex<HashMap<LocalDefId, usize>>> = OnceLock::new();
static ORIG: OnceLock<
    for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>,
> = OnceLock::new();

fn my_drops_elaborated<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    if tcx.is_coroutine(def.to_def_id()) {
        let (b, _) = tcx.mir_promoted(def);
        let body: Body<'tcx> = b.borrow().clone();
        let leaked: &'static Body<'static> =
            unsafe { std::mem::transmute(Box::leak(Box::new(body))) };
        STASH
            .get_or_init(Default::default)
            .lock()
            .unwrap()
            .insert(def, leaked as *const Body<'static> as usize);
    }
    (ORIG.get().unwrap())(tcx, def)
}

struct Cb {
    out: String,
    cfg: Vec<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_sess, p: &mut Providers| {
            let _ = ORIG.set(p.queries.mir_drops_elaborated_and_const_checked);
            p.queries.mir_drops_elaborated_and_const_checked = my_drops_elaborated;
        });
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let mut d = Dumper::new(tcx);
        let j = d.run(&self.cfg);
        let mut s = String::new();
        j.write(&mut s);
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, s).expect("write dump");
        std::fs::rename(&tmp, &self.out).expect("rename dump");
        rustc_driver::Compilation::Continue
    }
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
    fns: Vec<(usize, J)>,
    inst_info: Vec<J>,
    ws: HashSet<String>,
}

fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n<T: TryInto<i128>>(x: T) -> J {
    J::N(x.try_into().ok().unwrap())
}

const STD_PREFIX: &[&str] = &[
    "core::option", "core::result", "core::ops", "core::cmp", "core::convert", "core::mem",
    "core::clone", "core::default", "core::num", "core::bool", "core::borrow", "core::pin",
    "core::future", "core::tuple", "core::array::equality", "core::slice::cmp", "core::any",
    "std::ops", "std::option", "std::result",
];

impl<'tcx> Dumper<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        let ws = std::env::var("MIRDUMP_WS")
            .unwrap_or_default()
            .split(',')
            .map(|x| x.to_string())
            .collect();
        Dumper {
            tcx,
            env: ty::TypingEnv::fully_monomorphized(),
            tys: HashMap::new(),
            ty_out: vec![],
            insts: HashMap::new(),
            queue: VecDeque::new(),
            fns: vec![],
            inst_info: vec![],
            ws,
        }
    }

    fn path(&self, d: DefId) -> String {
        nt!(self.tcx.def_path_str(d))
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return J::Null;
        }
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().into_owned())
                .unwrap_or_default(),
            o => format!("{:?}", o),
        };
        J::A(vec![s(f), n(lo.line)])
    }

    fn layout_info(&self, t: Ty<'tcx>, o: &mut Vec<(String, J)>) {
        if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) {
            if l.is_sized() {
                o.push(("size".into(), n(l.size.bytes())));
                o.push(("align".into(), n(l.align.abi.bytes())));
            }
            if let ty::Adt(def, _) = t.kind() {
                if def.is_struct() {
                    let c = l.fields.count();
                    let offs = (0..c).map(|i| n(l.fields.offset(i).bytes())).collect();
                    o.push(("offsets".into(), J::A(offs)));
                }
            }
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(J::Null);
        let tcx = self.tcx;
        let mut o: Vec<(String, J)> = vec![];
        let name = nt!(t.to_string());
        o.push(("s".into(), s(name)));
        match t.kind() {
            ty::Bool => o.push(("k".into(), s("bool"))),
            ty::Char => o.push(("k".into(), s("char"))),
            ty::Int(_) => {
                o.push(("k".into(), s("int")));
                self.layout_info(t, &mut o);
            }
            ty::Uint(_) => {
                o.push(("k".into(), s("uint")));
                self.layout_info(t, &mut o);
            }
            ty::Float(_) => o.push(("k".into(), s("float"))),
            ty::Str => o.push(("k".into(), s("str"))),
            ty::Never => o.push(("k".into(), s("never"))),
            ty::Ref(_, inner, m) => {
                o.push(("k".into(), s("ref")));
                o.push(("mut".into(), J::B(m.is_mut())));
                let i = self.ty(*inner);
                o.push(("to".into(), n(i)));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k".into(), s("ptr")));
                o.push(("mut".into(), J::B(m.is_mut())));
                let i = self.ty(*inner);
                o.push(("to".into(), n(i)));
            }
            ty::Slice(inner) => {
                o.push(("k".into(), s("slice")));
                let i = self.ty(*inner);
                o.push(("to".into(), n(i)));
            }
            ty::Array(inner, len) => {
                o.push(("k".into(), s("array")));
                let i = self.ty(*inner);
                o.push(("to".into(), n(i)));
                if let Some(l) = len.try_to_target_usize(tcx) {
                    o.push(("len".into(), n(l)));
                }
                self.layout_info(t, &mut o);
            }
            ty::Tuple(ts) => {
                o.push(("k".into(), s("tuple")));
                let v = ts.iter().map(|x| n(self.ty(x))).collect();
                o.push(("elems".into(), J::A(v)));
                self.layout_info(t, &mut o);
            }
            ty::Adt(def, args) => {
                o.push(("k".into(), s("adt")));
                o.push(("path".into(), s(self.path(def.did()))));
                o.push((
                    "adt".into(),
                    s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                let a = args.types().map(|x| n(self.ty(x))).collect();
                o.push(("args".into(), J::A(a)));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        n(def.discriminant_for_variant(tcx, vi).val)
                    } else {
                        n(0)
                    };
                    let fs = v
                        .fields
                        .iter()
                        .map(|f| {
                            let fty = nt!(tcx
                                .type_of(f.did)
                                .instantiate_identity()
                                .skip_norm_wip()
                                .to_string());
                            J::A(vec![s(f.name.as_str()), s(fty)])
                        })
                        .collect();
                    vs.push(J::O(vec![
                        ("name".into(), s(v.name.as_str())),
                        ("discr".into(), discr),
                        ("fields".into(), J::A(fs)),
                    ]));
                }
                o.push(("variants".into(), J::A(vs)));
                o.push(("repr".into(), s(format!("{:?}", def.repr()))));
                if !t.has_escaping_bound_vars() && !t.has_param() {
                    self.layout_info(t, &mut o);
                }
            }
            ty::FnDef(d, args) => {
                o.push(("k".into(), s("fndef")));
                o.push(("path".into(), s(self.path(*d))));
                let args = args.no_bound_vars().expect("bound fndef args");
                if !args.has_param() {
                    if let Some(i) = self.resolve(*d, args) {
                        o.push(("inst".into(), n(i)));
                    }
                }
            }
            ty::Closure(d, args) => {
                o.push(("k".into(), s("closure")));
                o.push(("path".into(), s(self.path(*d))));
                let kind = format!("{:?}", args.as_closure().kind());
                o.push(("ckind".into(), s(kind)));
                let ups = args.as_closure().upvar_tys();
                let v = ups.iter().map(|x| n(self.ty(x))).collect();
                o.push(("upvars".into(), J::A(v)));
                let inst = Instance::new_raw(*d, args);
                let i = self.inst(inst);
                o.push(("inst".into(), n(i)));
            }
            ty::Coroutine(d, args) => {
                o.push(("k".into(), s("coroutine")));
                o.push(("path".into(), s(self.path(*d))));
                let ups = args.as_coroutine().upvar_tys();
                let v = ups.iter().map(|x| n(self.ty(x))).collect();
                o.push(("upvars".into(), J::A(v)));
                let inst = Instance::new_raw(*d, args);
                let i = self.inst(inst);
                o.push(("inst".into(), n(i)));
            }
            ty::Dynamic(..) => o.push(("k".into(), s("dyn"))),
            ty::FnPtr(..) => o.push(("k".into(), s("fnptr"))),
            _ => o.push(("k".into(), s("other"))),
        }
        self.ty_out[id] = J::O(o);
        id
    }

    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<usize> {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            Instance::try_resolve(self.tcx, self.env, d, args)
        }));
        match r {
            Ok(Ok(Some(i))) => Some(self.inst(i)),
            _ => None,
        }
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        let i = self.tcx.erase_and_anonymize_regions(i);
        if let Some(&k) = self.insts.get(&i) {
            return k;
        }
        let k = self.inst_info.len();
        self.insts.insert(i, k);
        self.inst_info.push(J::Null);
        let did = i.def_id();
        let kind = match i.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
            InstanceKind::Virtual(..) => "virtual".to_string(),
            InstanceKind::Shim(sh) => {
                let d = format!("{:?}", sh);
                format!("shim:{}", d.split('(').next().unwrap_or(""))
            }
            _ => "other".to_string(),
        };
        let krate = self.tcx.crate_name(did.krate).to_string();
        let path = self.path(did);
        let mut o = vec![
            ("path".into(), s(path.clone())),
            ("kind".into(), s(kind.clone())),
            ("crate".into(), s(krate.clone())),
            (
                "full".into(),
                s(nt!(self.tcx.def_path_str_with_args(did, i.args))),
            ),
        ];
        // trait method this instance implements, if any
        if let Some(a) = self.tcx.opt_associated_item(did) {
            let cid = a.container_id(self.tcx);
            if let Some(t) = a.trait_item_def_id() {
                o.push(("trait_item".into(), s(self.path(t))));
            }
            if matches!(self.tcx.def_kind(cid), DefKind::Impl { .. }) {
                let st = self
                    .tcx
                    .type_of(cid)
                    .instantiate(self.tcx, i.args.truncate_to(self.tcx, self.tcx.generics_of(cid)))
                    .skip_norm_wip();
                o.push(("self_ty".into(), s(nt!(st.to_string()))));
                let st = self.tcx.erase_and_anonymize_regions(st);
                if !st.has_param() && !st.has_escaping_bound_vars() && !st.has_aliases() {
                    o.push(("st".into(), n(self.ty(st))));
                }
                if let Some(tr) = self.tcx.impl_opt_trait_ref(cid) {
                    let tr = tr
                        .instantiate(self.tcx, i.args.truncate_to(self.tcx, self.tcx.generics_of(cid)))
                        .skip_norm_wip();
                    let mut v = vec![];
                    for t in tr.args.types() {
                        let t = self.tcx.erase_and_anonymize_regions(t);
                        if !t.has_param() && !t.has_escaping_bound_vars() && !t.has_aliases() {
                            v.push(n(self.ty(t)));
                        } else {
                            v.push(J::Null);
                        }
                    }
                    o.push(("ta".into(), J::A(v)));
                }
            } else if matches!(self.tcx.def_kind(cid), DefKind::Trait) {
                let np = self.tcx.generics_of(cid).own_params.len();
                let mut v = vec![];
                for t in i.args.types().take(np) {
                    if !t.has_param() && !t.has_escaping_bound_vars() {
                        v.push(n(self.ty(t)));
                    } else {
                        v.push(J::Null);
                    }
                }
                if let Some(J::N(x)) = v.first() {
                    let x = *x;
                    o.push(("st".into(), J::N(x)));
                }
                o.push(("ta".into(), J::A(v)));
            }
            // the method's own type arguments
            let np = self.tcx.generics_of(cid).count();
            let mut v = vec![];
            for a in i.args.iter().skip(np) {
                if let Some(t) = a.as_type() {
                    if !t.has_param() && !t.has_escaping_bound_vars() {
                        v.push(n(self.ty(t)));
                    } else {
                        v.push(J::Null);
                    }
                }
            }
            o.push(("ma".into(), J::A(v)));
        }
        let mut ca = vec![];
        for c in i.args.consts() {
            match c.try_to_target_usize(self.tcx) {
                Some(x) => ca.push(n(x as usize)),
                None => ca.push(J::Null),
            }
        }
        o.push(("ca".into(), J::A(ca)));
        let mut targs = vec![];
        for a in i.args.types() {
            if !a.has_param() && !a.has_escaping_bound_vars() {
                targs.push(n(self.ty(a)));
            } else {
                targs.push(J::Null);
            }
        }
        o.push(("targs".into(), J::A(targs)));
        if matches!(self.tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn)
            && !i.args.has_param()
            && !i.args.has_escaping_bound_vars()
        {
            let sig = self.tcx.fn_sig(did).instantiate(self.tcx, i.args).skip_norm_wip();
            let sig = self.tcx.instantiate_bound_regions_with_erased(sig);
            let sig = self.tcx.erase_and_anonymize_regions(sig);
            let mut v = vec![];
            for t in sig.inputs().iter() {
                if !t.has_param() && !t.has_escaping_bound_vars() && !t.has_aliases() {
                    v.push(n(self.ty(*t)));
                } else {
                    // only the reference kind matters
                    let k = match t.kind() {
                        ty::Ref(_, _, m) => if m.is_mut() { "&mut" } else { "&" },
                        _ => "?",
                    };
                    v.push(s(k));
                }
            }
            o.push(("sig".into(), J::A(v)));
        }
        let hl = self.tcx.def_span(did);
        o.push(("span".into(), self.span(hl)));
        // should we dump the body?
        let follow = self.follow(&i, &krate, &path);
        o.push(("body".into(), J::B(follow)));
        self.inst_info[k] = J::O(o);
        if follow {
            self.queue.push_back((i, k));
        }
        k
    }

    fn follow(&self, i: &Instance<'tcx>, krate: &str, path: &str) -> bool {
        if i.args.has_param() || i.args.has_escaping_bound_vars() {
            return false;
        }
        match i.def {
            InstanceKind::Item(d) => {
                if self.tcx.is_constructor(d) {
                    return false;
                }
                if !matches!(
                    self.tcx.def_kind(d),
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure
                ) {
                    return false;
                }
                if !(d.is_local() || self.tcx.is_mir_available(d)) {
                    return false;
                }
                if self.ws.contains(krate) {
                    return true;
                }
                if krate == "core" || krate == "alloc" || krate == "std" {
                    return STD_PREFIX.iter().any(|p| path.contains(p))
                        || path.starts_with('<');
                }
                false
            }
            InstanceKind::Shim(sh) => {
                let d = format!("{:?}", sh);
                d.starts_with("ClosureOnce") || d.starts_with("FnPtr") || d.starts_with("Reify")
            }
            _ => false,
        }
    }

    fn run(&mut self, cfg: &[String]) -> J {
        let tcx = self.tcx;
        let mut roots = vec![];
        for def in tcx.hir_body_owners() {
            let did = def.to_def_id();
            let dk = tcx.def_kind(did);
            if !matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let g = tcx.generics_of(did);
            let args = if g.requires_monomorphization(tcx) {
                // reader-generic decoders of concrete types are analysed over `&[u8]`
                let types: Vec<_> = g
                    .own_params
                    .iter()
                    .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                    .collect();
                let parent_generic =
                    g.parent.map_or(false, |p| tcx.generics_of(p).requires_monomorphization(tcx));
                let nm = tcx.item_name(did);
                if !matches!(nm.as_str(), "deserialize_reader" | "serialize")
                    || types.len() != 1
                    || parent_generic
                {
                    continue;
                }
                let re = tcx.lifetimes.re_erased;
                let slice = if nm.as_str() == "serialize" {
                    // and writer-generic encoders over `Vec<u8>`
                    let Some(vec) = tcx.get_diagnostic_item(rustc_span::sym::Vec) else { continue };
                    let va = ty::GenericArgs::for_item(tcx, vec, |p, prev| {
                        if p.index == 0 {
                            tcx.types.u8.into()
                        } else {
                            tcx.type_of(p.def_id).instantiate(tcx, prev).skip_norm_wip().into()
                        }
                    });
                    ty::Ty::new_adt(tcx, tcx.adt_def(vec), va)
                } else {
                    ty::Ty::new_imm_ref(tcx, re, ty::Ty::new_slice(tcx, tcx.types.u8))
                };
                ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => re.into(),
                    _ => slice.into(),
                })
            } else {
                ty::GenericArgs::identity_for_item(tcx, did)
            };
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(did, args);
            let k = self.inst(inst);
            roots.push(n(k));
        }
        while let Some((i, k)) = self.queue.pop_front() {
            let r = self.dump_fn(i, k);
            self.fns.push((k, r));
        }
        // local constants (items) by path
        let mut consts = vec![];
        for def in tcx.hir_body_owners() {
            let did = def.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Const | DefKind::AssocConst)
                && !tcx.generics_of(did).requires_monomorphization(tcx)
            {
                if let Ok(v) = tcx.const_eval_poly(did) {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let val = self.cval(v, t, 0);
                    consts.push(J::O(vec![
                        ("path".into(), s(self.path(did))),
                        ("val".into(), val),
                        ("span".into(), self.span(tcx.def_span(did))),
                    ]));
                }
            }
        }
        // local ADTs
        let mut adts = vec![];
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum)
                && !tcx.generics_of(did).requires_monomorphization(tcx)
            {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                adts.push(n(self.ty(t)));
            }
        }
        // late instances discovered by consts / adts
        while let Some((i, k)) = self.queue.pop_front() {
            let r = self.dump_fn(i, k);
            self.fns.push((k, r));
        }
        let fns = std::mem::take(&mut self.fns)
            .into_iter()
            .map(|(k, j)| (k.to_string(), j))
            .collect();
        J::O(vec![
            ("crate".into(), s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
            ("cfg".into(), J::A(cfg.iter().map(|x| s(x.as_str())).collect())),
            ("roots".into(), J::A(roots)),
            ("insts".into(), J::A(std::mem::take(&mut self.inst_info))),
            ("types".into(), J::A(std::mem::take(&mut self.ty_out))),
            ("fns".into(), J::O(fns)),
            ("consts".into(), J::A(consts)),
            ("adts".into(), J::A(adts)),
        ])
    }

    fn dump_fn(&mut self, i: Instance<'tcx>, _k: usize) -> J {
        let tcx = self.tcx;
        let did = i.def_id();
        let mut pre = false;
        let body: Body<'tcx> = if let (InstanceKind::Item(d), Some(l)) = (i.def, did.as_local()) {
            if tcx.is_coroutine(d) {
                // force the query so that the stash is filled
                let _ = tcx.mir_coroutine_witnesses(d);
                let _ = tcx.optimized_mir(d);
                let p = STASH
                    .get_or_init(Default::default)
                    .lock()
                    .unwrap()
                    .get(&l)
                    .copied();
                match p {
                    Some(p) => {
                        pre = true;
                        let b: &'static Body<'static> = unsafe { &*(p as *const Body<'static>) };
                        let b: &'tcx Body<'tcx> = unsafe { std::mem::transmute(b) };
                        b.clone()
                    }
                    None => tcx.instance_mir(i.def).clone(),
                }
            } else {
                tcx.instance_mir(i.def).clone()
            }
        } else {
            tcx.instance_mir(i.def).clone()
        };
        let body = if pre {
            tcx.erase_and_anonymize_regions(body)
        } else {
            body
        };
        let body = match i.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, body),
        ) {
            Ok(b) => b,
            Err(e) => return J::O(vec![("error".into(), s(format!("{:?}", e)))]),
        };
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else if p.local.as_usize() == 1 {
                    for e in p.projection.iter() {
                        if let ProjectionElem::Field(f, _) = e {
                            upnames.push(J::A(vec![n(f.as_usize()), s(v.name.as_str())]));
                            break;
                        }
                    }
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let mut o = vec![("t".into(), n(self.ty(d.ty)))];
            if let Some(nm) = names.get(&l.as_usize()) {
                o.push(("n".into(), s(nm.as_str())));
            }
            locals.push(J::O(o));
        }
        let mut blocks = vec![];
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            for st in &b.statements {
                let j = match &st.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        let pj = self.place(&body, p);
                        let rj = self.rvalue(&body, r);
                        J::A(vec![s("="), pj, rj, self.span(st.source_info.span)])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(&body, place);
                        J::A(vec![s("sd"), pj, n(variant_index.as_usize())])
                    }
                    StatementKind::StorageDead(l) => J::A(vec![s("dead"), n(l.as_usize())]),
                    StatementKind::StorageLive(l) => J::A(vec![s("live"), n(l.as_usize())]),
                    StatementKind::Intrinsic(x) => match &**x {
                        mir::NonDivergingIntrinsic::Assume(_) => continue,
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.operand(&body, &c.src);
                            let b2 = self.operand(&body, &c.dst);
                            let c2 = self.operand(&body, &c.count);
                            J::A(vec![s("cno"), a, b2, c2])
                        }
                    },
                    _ => continue,
                };
                stmts.push(j);
            }
            let t = b.terminator();
            let tj = self.term(&body, t);
            blocks.push(J::O(vec![
                ("s".into(), J::A(stmts)),
                ("t".into(), tj),
                ("sp".into(), self.span(t.source_info.span)),
                ("c".into(), J::B(b.is_cleanup)),
            ]));
        }
        let mut o = vec![
            ("argc".into(), n(body.arg_count)),
            ("locals".into(), J::A(locals)),
            ("blocks".into(), J::A(blocks)),
            ("pre".into(), J::B(pre)),
            ("upnames".into(), J::A(upnames)),
            ("span".into(), self.span(body.span)),
        ];
        if let Some(sp) = body.spread_arg {
            o.push(("spread".into(), n(sp.as_usize())));
        }
        J::O(o)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => {
                    let t = self.ty(pt.ty);
                    J::A(vec![s("*"), n(t)])
                }
                ProjectionElem::Field(f, t) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(VariantIdx::from_u32(0));
                            def.variant(vi).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let ti = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), s(name), n(ti)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    n(offset),
                    n(min_length),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from), n(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(nm, v) => {
                    let nm = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => nm.map(|x| x.to_string()).unwrap_or_default(),
                    };
                    J::A(vec![s("v"), n(v.as_usize()), s(nm)])
                }
                _ => J::A(vec![s("o")]),
            };
            pr.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        let t = self.ty(pt.ty);
        J::A(vec![n(p.local.as_usize()), J::A(pr), n(t)])
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(body, p)]),
            Operand::Constant(c) => {
                let v = self.konst(c.const_, c.span);
                J::A(vec![s("k"), v])
            }
            Operand::RuntimeChecks(r) => {
                let v = r.value(self.tcx.sess);
                let t = self.ty(self.tcx.types.bool);
                J::A(vec![
                    s("k"),
                    J::O(vec![("k".into(), s("int")), ("v".into(), n(v as u8)), ("t".into(), n(t))]),
                ])
            }
        }
    }

    fn konst(&mut self, c: Const<'tcx>, sp: Span) -> J {
        let t = c.ty();
        let mut name = None;
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                name = Some(self.path(u.def));
            }
        }
        let mut v = match c.eval(self.tcx, self.env, sp) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => {
                let ti = self.ty(t);
                J::O(vec![("k".into(), s("err")), ("t".into(), n(ti))])
            }
        };
        if let (Some(nm), J::O(o)) = (name, &mut v) {
            o.push(("name".into(), s(nm)));
        }
        v
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let ti = self.ty(t);
        let mut o: Vec<(String, J)> = vec![];
        if depth > 12 {
            return J::O(vec![("k".into(), s("deep")), ("t".into(), n(ti))]);
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(b) = self.read_int(v, t) {
                    let val: i128 = match t.kind() {
                        ty::Int(_) => {
                            let sz = tcx.layout_of(self.env.as_query_input(t)).unwrap().size;
                            sz.sign_extend(b) as i128
                        }
                        _ => b as i128,
                    };
                    o.push(("k".into(), s("int")));
                    if matches!(t.kind(), ty::Uint(ty::UintTy::U128)) {
                        o.push(("v".into(), s(format!("{}", b))));
                    } else {
                        o.push(("v".into(), J::N(val)));
                    }
                }
            }
            ty::FnDef(..) | ty::Closure(..) => o.push(("k".into(), s("zst"))),
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                if let Some((pv, pt)) = self.deref(v, *inner) {
                    match pv {
                        Ok(bytes) => {
                            o.push(("k".into(), s(if inner.is_str() { "str" } else { "bytes" })));
                            if inner.is_str() {
                                o.push(("v".into(), s(String::from_utf8_lossy(&bytes).to_string())));
                            } else {
                                o.push(("v".into(), J::A(bytes.iter().map(|b| n(*b)).collect())));
                            }
                        }
                        Err(cv) => {
                            let x = self.cval(cv, pt, depth + 1);
                            o.push(("k".into(), s("ref")));
                            o.push(("v".into(), x));
                        }
                    }
                }
            }
            ty::Array(..) | ty::Tuple(..) | ty::Adt(..) => {
                // byte arrays compactly
                let d = if t.has_param() {
                    None
                } else {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        tcx.try_destructure_mir_constant_for_user_output(v, t)
                    }))
                    .unwrap_or(None)
                };
                if let Some(d) = d {
                    let fs: Vec<J> = d
                        .fields
                        .iter()
                        .map(|(fv, ft)| self.cval(*fv, *ft, depth + 1))
                        .collect();
                    o.push(("k".into(), s("agg")));
                    o.push(("f".into(), J::A(fs)));
                    if let Some(vi) = d.variant {
                        o.push(("var".into(), n(vi.as_usize())));
                    }
                } else if matches!(v, ConstValue::ZeroSized) {
                    o.push(("k".into(), s("agg")));
                    o.push(("f".into(), J::A(vec![])));
                }
            }
            _ => {}
        }
        if o.is_empty() {
            o.push(("k".into(), s("opaque")));
            o.push(("dbg".into(), s(format!("{:?}", v))));
        }
        o.push(("t".into(), n(ti)));
        J::O(o)
    }

    fn read_int(&self, v: ConstValue, t: Ty<'tcx>) -> Option<u128> {
        let sz = self.tcx.layout_of(self.env.as_query_input(t)).ok()?.size;
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => Some(i.to_bits(sz)),
            ConstValue::Indirect { alloc_id, offset } => {
                let a = match self.tcx.global_alloc(alloc_id) {
                    GlobalAlloc::Memory(m) => m,
                    _ => return None,
                };
                let start = offset.bytes() as usize;
                let end = start + sz.bytes() as usize;
                if end > a.inner().len() {
                    return None;
                }
                let b = a
                    .inner()
                    .inspect_with_uninit_and_ptr_outside_interpreter(start..end);
                let mut x: u128 = 0;
                for (k, y) in b.iter().enumerate() {
                    x |= (*y as u128) << (8 * k);
                }
                Some(x)
            }
            _ => None,
        }
    }

    // dereference a constant reference: Ok(bytes) for str/[u8]/[u8;N], else the pointee const
    #[allow(clippy::type_complexity)]
    fn deref(
        &self,
        v: ConstValue,
        inner: Ty<'tcx>,
    ) -> Option<(Result<Vec<u8>, ConstValue>, Ty<'tcx>)> {
        let tcx = self.tcx;
        let ps = tcx.data_layout.pointer_size();
        let (aid, off, meta): (_, u64, Option<u64>) = match v {
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                (prov.alloc_id(), off.bytes(), None)
            }
            ConstValue::Slice { alloc_id, meta } => (alloc_id, 0, Some(meta)),
            ConstValue::Indirect { alloc_id, offset } => {
                let a = match tcx.global_alloc(alloc_id) {
                    GlobalAlloc::Memory(m) => m,
                    _ => return None,
                };
                let a = a.inner();
                let prov = a.provenance().ptrs().get(&offset)?;
                let st = offset.bytes() as usize;
                let rd = |st: usize| -> u64 {
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                        st..st + ps.bytes() as usize,
                    );
                    u64::from_le_bytes(b.try_into().unwrap())
                };
                let o = rd(st);
                let m = if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                    Some(rd(st + ps.bytes() as usize))
                } else {
                    None
                };
                (prov.alloc_id(), o, m)
            }
            _ => return None,
        };
        let (mem, aid) = match tcx.global_alloc(aid) {
            GlobalAlloc::Memory(m) => (m, aid),
            GlobalAlloc::Static(d) => {
                // an immutable static without interior mutability is its initial value
                if tcx.is_foreign_item(d)
                    || tcx.is_thread_local_static(d)
                    || tcx.is_mutable_static(d)
                    || !inner.is_freeze(tcx, self.env)
                {
                    return None;
                }
                let m = tcx.eval_static_initializer(d).ok()?;
                if m.inner().len() > 256 {
                    return None;
                }
                (m, tcx.reserve_and_set_memory_alloc(m))
            }
            _ => return None,
        };
        let take = |len: u64| -> Option<Vec<u8>> {
            let s0 = off as usize;
            let e0 = s0 + len as usize;
            if e0 > mem.inner().len() {
                return None;
            }
            Some(
                mem.inner()
                    .inspect_with_uninit_and_ptr_outside_interpreter(s0..e0)
                    .to_vec(),
            )
        };
        match inner.kind() {
            ty::Str => Some((Ok(take(meta?)?), inner)),
            ty::Slice(e) if *e == tcx.types.u8 => Some((Ok(take(meta?)?), inner)),
            ty::Array(e, l) if *e == tcx.types.u8 => {
                Some((Ok(take(l.try_to_target_usize(tcx)?)?), inner))
            }
            ty::Slice(e) => {
                let at = Ty::new_array(tcx, *e, meta?);
                Some((
                    Err(ConstValue::Indirect {
                        alloc_id: aid,
                        offset: rustc_abi::Size::from_bytes(off),
                    }),
                    at,
                ))
            }
            ty::Dynamic(..) => None,
            _ => Some((
                Err(ConstValue::Indirect {
                    alloc_id: aid,
                    offset: rustc_abi::Size::from_bytes(off),
                }),
                inner,
            )),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(body, o)]),
            Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(self.tcx);
                J::A(vec![
                    s("rep"),
                    self.operand(body, o),
                    l.map(|x| n(x)).unwrap_or(J::Null),
                ])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                let fake = matches!(bk, mir::BorrowKind::Fake(_));
                J::A(vec![s("ref"), self.place(body, p), J::B(m), J::B(fake)])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(body, p), J::B(true), J::B(false)]),
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(&body.local_decls, self.tcx);
                let f = self.ty(ft);
                let ti = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(body, o), n(ti), n(f)])
            }
            Rvalue::BinaryOp(op, x) => {
                let t = x.0.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                J::A(vec![
                    s("bin"),
                    s(format!("{:?}", op)),
                    self.operand(body, &x.0),
                    self.operand(body, &x.1),
                    n(ti),
                ])
            }
            Rvalue::UnaryOp(op, x) => {
                let t = x.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(body, x), n(ti)])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("disc"), self.place(body, p)]),
            Rvalue::Aggregate(k, fs) => {
                let t = r.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                let (kind, var, act) = match &**k {
                    AggregateKind::Array(_) => ("array", 0usize, None),
                    AggregateKind::Tuple => ("tuple", 0, None),
                    AggregateKind::Adt(_, v, _, _, a) => ("adt", v.as_usize(), *a),
                    AggregateKind::Closure(..) => ("closure", 0, None),
                    AggregateKind::Coroutine(..) => ("coroutine", 0, None),
                    AggregateKind::CoroutineClosure(..) => ("coclosure", 0, None),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                };
                let v = fs.iter().map(|f| self.operand(body, f)).collect();
                J::A(vec![
                    s("agg"),
                    s(kind),
                    n(ti),
                    n(var),
                    J::A(v),
                    act.map(|f: FieldIdx| n(f.as_usize())).unwrap_or(J::Null),
                ])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("cp"), self.place(body, p)])])
            }
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(body, o)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![
                s("use"),
                J::A(vec![s("cp"), self.place(body, p)]),
                J::B(m.is_mut()),
            ]),
        }
    }

    fn term(&mut self, body: &Body<'tcx>, t: &mir::Terminator<'tcx>) -> J {
        let bb = |b: mir::BasicBlock| n(b.as_usize());
        let uw = |u: &mir::UnwindAction| match u {
            mir::UnwindAction::Cleanup(b) => n(b.as_usize()),
            _ => J::Null,
        };
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bb(*target)]),
            TerminatorKind::FalseEdge { real_target, .. } => {
                J::A(vec![s("goto"), bb(*real_target)])
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                J::A(vec![s("goto"), bb(*real_target)])
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(&body.local_decls, self.tcx);
                let ti = self.ty(dt);
                let v = targets
                    .iter()
                    .map(|(v, b)| J::A(vec![n(v), bb(b)]))
                    .collect();
                J::A(vec![
                    s("sw"),
                    self.operand(body, discr),
                    J::A(v),
                    bb(targets.otherwise()),
                    n(ti),
                ])
            }
            TerminatorKind::Return => J::A(vec![s("ret")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
            TerminatorKind::UnwindResume
            | TerminatorKind::UnwindTerminate(_)
            | TerminatorKind::CoroutineDrop => J::A(vec![s("resume")]),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let p = self.place(body, place);
                let pt = place.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(pt);
                J::A(vec![s("drop"), p, bb(*target), n(ti), uw(unwind)])
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let ft = func.ty(&body.local_decls, self.tcx);
                let fi = self.ty(ft);
                let f = self.operand(body, func);
                let a = args.iter().map(|x| self.operand(body, &x.node)).collect();
                let d = self.place(body, destination);
                J::A(vec![
                    s("call"),
                    n(fi),
                    f,
                    J::A(a),
                    d,
                    target.map(|b| bb(b)).unwrap_or(J::Null),
                    uw(unwind),
                ])
            }
            TerminatorKind::TailCall { .. } => J::A(vec![s("tail")]),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let k = match &**msg {
                    AssertKind::BoundsCheck { len, index } => J::A(vec![
                        s("bounds"),
                        self.operand(body, len),
                        self.operand(body, index),
                    ]),
                    AssertKind::Overflow(op, ..) => J::A(vec![s("overflow"), s(format!("{:?}", op))]),
                    AssertKind::OverflowNeg(_) => J::A(vec![s("overflow"), s("Neg")]),
                    AssertKind::DivisionByZero(_) => J::A(vec![s("div0")]),
                    AssertKind::RemainderByZero(_) => J::A(vec![s("rem0")]),
                    _ => J::A(vec![s("other")]),
                };
                let c = self.operand(body, cond);
                J::A(vec![s("assert"), c, J::B(*expected), k, bb(*target)])
            }
            TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                let v = self.operand(body, value);
                let r = self.place(body, resume_arg);
                J::A(vec![s("yield"), v, bb(*resume), r])
            }
            TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
        }
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let get = |f: &str| -> Option<String> {
        args.iter().position(|a| a == f).and_then(|i| args.get(i + 1).cloned())
    };
    let name = get("--crate-name");
    let is_build_script = name.as_deref().map_or(false, |x| x.starts_with("build_script"));
    let has_input = args.iter().any(|a| a.ends_with(".rs"));
    let dir = std::env::var("MIRDUMP_OUT").ok();
    let is_test = args.iter().any(|a| a == "--test");
    match (name, dir) {
        (Some(nm), Some(dir)) if nm != "___" && has_input && !is_build_script && !is_test => {
            let mut cfg: Vec<String> = vec![];
            let mut it = args.iter();
            while let Some(a) = it.next() {
                if a == "--cfg" {
                    if let Some(v) = it.next() {
                        cfg.push(v.clone());
                    }
                }
            }
            cfg.sort();
            let kind = if args.iter().any(|a| a == "bin") { "bin" } else { "lib" };
            let out = format!("{}/{}-{}.json", dir, nm, kind);
            args.push("-Zalways-encode-mir".into());
            args.push("-Zmir-opt-level=0".into());
            args.push("-Awarnings".into());
            let mut cb = Cb { out, cfg };
            return rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut cb));
        }
        _ => {
            struct No;
            impl rustc_driver::Callbacks for No {}
            return rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut No));
        }
    }
}
