//! Models of many structures, all with the derived implementation (but `Hand`).
use crate::util::*;
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::{Device, Model, Optimizer, Parameter, Shape, Tensor};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::marker::PhantomData;

pub type P = Parameter<'static>;

/// What new parameters are made of.
pub struct World {
    pub dev: Option<&'static Device<'static>>, // none: not on a device yet
    pub r: Rng,
    pub integers: bool,
    pub special: bool,
    pub wild: bool, // with values not every format can hold
    pub host: Vec<(Vec<f32>, Vec<f32>)>,
}
const DIMS: [&[u32]; 8] = [&[], &[1], &[2], &[3], &[2, 2], &[1, 3], &[2, 1, 2], &[1, 1, 1, 2]];
pub const SPECIAL: [f32; 12] = [0., -0., 1e-45, -1e-40, f32::MIN_POSITIVE, f32::MAX, f32::MIN, 1. / 3., 16777217., 0.1, -1e-7, 123456.79];
pub fn special_value(r: &mut Rng, wild: bool) -> f32 {
    if wild && r.chance(1, 2) {
        *r.pick(&WILD)
    } else {
        *r.pick(&SPECIAL)
    }
}
pub const WILD: [f32; 6] = [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::INFINITY, -f32::NAN, -0.];
impl World {
    pub fn param(&mut self) -> P {
        let wild = self.wild;
        let r = &mut self.r;
        let s = Shape::new(*r.pick(&DIMS), 1);
        let n = s.size() as usize;
        let mut vals = |special: bool| -> Vec<f32> {
            // often only two different values, e.g. zeros of both signs
            let two = if r.chance(1, 2) { [0., -0.] } else { [special_value(r, wild), special_value(r, wild)] };
            let few = special && r.chance(1, 2);
            (0..n)
                .map(|_| {
                    if self.integers {
                        r.range(-8, 8) as f32
                    } else if few {
                        *r.pick(&two)
                    } else if special && r.chance(1, 4) {
                        special_value(r, wild)
                    } else {
                        r.range(-2000, 2000) as f32 / 999.
                    }
                })
                .collect()
        };
        let special = self.special;
        let (v, g) = (vals(special), vals(special));
        match self.dev {
            Some(d) => Parameter::new(d.new_tensor_by_slice(s, &v), d.new_tensor_by_slice(s, &g)),
            None => {
                self.host.push((v.clone(), g.clone()));
                Parameter::new(Tensor::new_host_tensor(s, v), Tensor::new_host_tensor(s, g))
            }
        }
    }
}

/// The structure, written down once more by hand.
pub trait Tree {
    fn tree(&self) -> Value;
    fn all<'a>(&'a self, v: &mut Vec<&'a P>);
    fn all_mut<'a>(&'a mut self, v: &mut Vec<&'a mut P>);
    fn kid(&mut self, i: usize) -> &mut dyn Tree;
    fn grow(&mut self, _w: &mut World) {
        panic!("HARNESS-ERROR not a list")
    }
    fn shrink(&mut self) {
        panic!("HARNESS-ERROR not a list")
    }
    fn make(w: &mut World, full: bool) -> Self
    where
        Self: Sized;
    fn tmpl() -> Value
    where
        Self: Sized;
}
impl Tree for P {
    fn tree(&self) -> Value {
        Self::tmpl()
    }
    fn all<'a>(&'a self, v: &mut Vec<&'a P>) {
        v.push(self)
    }
    fn all_mut<'a>(&'a mut self, v: &mut Vec<&'a mut P>) {
        v.push(self)
    }
    fn kid(&mut self, _i: usize) -> &mut dyn Tree {
        panic!("HARNESS-ERROR a parameter has no parts")
    }
    fn make(w: &mut World, _full: bool) -> P {
        w.param()
    }
    fn tmpl() -> Value {
        json!({"n": "p"})
    }
}
impl<T: Tree> Tree for Vec<T> {
    fn tree(&self) -> Value {
        json!({"n": "l", "m": T::tmpl(), "c": self.iter().map(|x| x.tree()).collect::<Vec<_>>()})
    }
    fn all<'a>(&'a self, v: &mut Vec<&'a P>) {
        self.iter().for_each(|x| x.all(v))
    }
    fn all_mut<'a>(&'a mut self, v: &mut Vec<&'a mut P>) {
        self.iter_mut().for_each(|x| x.all_mut(v))
    }
    fn kid(&mut self, i: usize) -> &mut dyn Tree {
        &mut self[i]
    }
    fn grow(&mut self, w: &mut World) {
        self.push(T::make(w, false))
    }
    fn shrink(&mut self) {
        self.pop();
    }
    fn make(w: &mut World, full: bool) -> Vec<T> {
        let n = if full { *w.r.pick(&[0, 1, 1, 2, 3]) } else { 0 };
        (0..n).map(|_| T::make(w, true)).collect()
    }
    fn tmpl() -> Value {
        json!({"n": "l", "m": T::tmpl(), "c": []})
    }
}
macro_rules! part {
    (own $x:expr) => {
        $x
    };
    (skip $x:expr) => {
        json!({"n": "s", "c": [$x]})
    };
}
macro_rules! tree {
    ([$($g:tt)*] $t:ty ; $( $k:ident $f:ident : $ft:ty ),* ; $( $z:ident ),* ) => {
        impl<$($g)*> Tree for $t {
            fn tree(&self) -> Value {
                json!({"n": "f", "c": [$( part!($k self.$f.tree()) ),*]})
            }
            fn all<'a>(&'a self, v: &mut Vec<&'a P>) {
                $( self.$f.all(v); )*
            }
            fn all_mut<'a>(&'a mut self, v: &mut Vec<&'a mut P>) {
                $( self.$f.all_mut(v); )*
            }
            #[allow(unused_assignments, unused_mut, unused_variables)]
            fn kid(&mut self, i: usize) -> &mut dyn Tree {
                let mut n = 0;
                $(
                    if i == n { return &mut self.$f; }
                    n += 1;
                )*
                panic!("HARNESS-ERROR no such part")
            }
            fn make(w: &mut World, full: bool) -> Self {
                $( let $f = <$ft>::make(w, full); )*
                Self { $( $f, )* $( $z: Default::default(), )* }
            }
            fn tmpl() -> Value {
                json!({"n": "f", "c": [$( part!($k <$ft>::tmpl()) ),*]})
            }
        }
    };
}

#[derive(Model, Serialize, Deserialize)]
pub struct Solo<'dev> {
    p: Parameter<'dev>,
}
tree!([] Solo<'static>; own p: P; );

#[derive(Model, Serialize, Deserialize)]
pub struct Leafy<'dev> {
    a: Parameter<'dev>,
    b: Parameter<'dev>,
}
tree!([] Leafy<'static>; own a: P, own b: P; );

#[derive(Model, Serialize, Deserialize)]
pub struct Skippy<'dev> {
    w: Parameter<'dev>,
    #[parameter(skip)]
    frozen: Parameter<'dev>,
    b: Parameter<'dev>,
    #[parameter(skip)]
    count: Vec<u32>,
}
tree!([] Skippy<'static>; own w: P, skip frozen: P, own b: P; count);

#[derive(Model, Serialize, Deserialize)]
pub struct Lists<'dev> {
    x: Parameter<'dev>,
    ps: Vec<Parameter<'dev>>,
    ls: Vec<Leafy<'dev>>,
    y: Parameter<'dev>,
}
tree!([] Lists<'static>; own x: P, own ps: Vec<P>, own ls: Vec<Leafy<'static>>, own y: P; );

#[derive(Model, Serialize, Deserialize)]
pub struct Deep<'dev> {
    a: Lists<'dev>,
    grid: Vec<Vec<Skippy<'dev>>>,
    pp: Vec<Vec<Parameter<'dev>>>,
    #[parameter(skip)]
    old: Leafy<'dev>,
    z: Solo<'dev>,
}
tree!([] Deep<'static>; own a: Lists<'static>, own grid: Vec<Vec<Skippy<'static>>>, own pp: Vec<Vec<P>>, skip old: Leafy<'static>, own z: Solo<'static>; );

#[derive(Model, Serialize, Deserialize)]
pub struct Pair<'dev, M: Model<'dev>> {
    first: M,
    own: Parameter<'dev>,
    rest: Vec<M>,
}
tree!([M: Model<'static> + Tree] Pair<'static, M>; own first: M, own own: P, own rest: Vec<M>; );

/// Type parameters bounded by a where clause, one of them only for a skipped part.
#[derive(Model, Serialize, Deserialize)]
pub struct Both<'dev, M, N, X>
where
    M: Model<'dev>,
    N: Model<'dev>,
    X: Default,
{
    second: N,
    #[parameter(skip)]
    mark: PhantomData<&'dev X>,
    first: M,
}
tree!([M: Model<'static> + Tree, N: Model<'static> + Tree, X: Default + 'static] Both<'static, M, N, X>; own second: N, own first: M; mark);

#[derive(Model, Serialize, Deserialize)]
pub struct Wide<'dev, const K: usize> {
    qs: Vec<Parameter<'dev>>,
    q: Parameter<'dev>,
}
tree!([const K: usize] Wide<'static, K>; own qs: Vec<P>, own q: P; );

#[derive(Model, Serialize, Deserialize)]
pub struct Hollow<'dev> {
    #[parameter(skip)]
    a: Parameter<'dev>,
    #[parameter(skip)]
    bs: Vec<Solo<'dev>>,
}
tree!([] Hollow<'static>; skip a: P, skip bs: Vec<Solo<'static>>; );

#[derive(Model, Serialize, Deserialize)]
pub struct Span<'dev, 'x> {
    #[parameter(skip)]
    mark: PhantomData<&'x u8>,
    h: Hollow<'dev>,
    p: Parameter<'dev>,
    q: Vec<Hollow<'dev>>,
    r: Vec<Skippy<'dev>>,
}
tree!([] Span<'static, 'static>; own h: Hollow<'static>, own p: P, own q: Vec<Hollow<'static>>, own r: Vec<Skippy<'static>>; mark);

/// Other attributes around the one that matters.
#[derive(Model, Serialize, Deserialize)]
#[allow(dead_code)]
pub struct Attr<'dev> {
    /// skip is only mentioned here
    pub parameters: Parameter<'dev>,
    #[allow(dead_code)]
    #[serde(rename = "skip")]
    r#type: Parameter<'dev>,
    /// not of the model
    #[allow(dead_code)]
    #[parameter(skip)]
    skipped: Parameter<'dev>,
    #[serde(skip)]
    list: Vec<Parameter<'dev>>,
    #[parameter(skip)]
    #[serde(skip, default)]
    note: Option<String>,
    #[cfg(not(any()))]
    pub(crate) skip: Leafy<'dev>,
    #[cfg_attr(not(any()), parameter(skip))]
    also: Parameter<'dev>,
    params: Parameter<'dev>,
}
tree!([] Attr<'static>; own parameters: P, own r#type: P, skip skipped: P, own list: Vec<P>, own skip: Leafy<'static>, skip also: P, own params: P; note);

/// An implementation by hand: its own order.
#[derive(Serialize, Deserialize)]
pub struct Hand<'dev> {
    hidden: Parameter<'dev>,
    ls: Vec<Leafy<'dev>>,
    p: Parameter<'dev>,
}
impl<'dev> Model<'dev> for Hand<'dev> {
    fn parameters(&self) -> Vec<&Parameter<'dev>> {
        let mut v = self.ls.parameters();
        v.push(&self.p);
        v
    }
    fn parameters_mut(&mut self) -> Vec<&mut Parameter<'dev>> {
        let mut v = self.ls.parameters_mut();
        v.push(&mut self.p);
        v
    }
}
tree!([] Hand<'static>; skip hidden: P, own ls: Vec<Leafy<'static>>, own p: P; );

#[derive(Model, Serialize, Deserialize)]
pub struct Hands<'dev> {
    one: Hand<'dev>,
    many: Vec<Hand<'dev>>,
    last: Vec<Parameter<'dev>>,
}
tree!([] Hands<'static>; own one: Hand<'static>, own many: Vec<Hand<'static>>, own last: Vec<P>; );

#[derive(Model, Serialize, Deserialize)]
pub struct Many<'dev> {
    p0: Parameter<'dev>,
    p1: Parameter<'dev>,
    #[parameter(skip)]
    s2: Parameter<'dev>,
    p3: Leafy<'dev>,
    p4: Parameter<'dev>,
    #[parameter(skip)]
    s5: Parameter<'dev>,
    #[parameter(skip)]
    s6: Lists<'dev>,
    p7: Vec<Solo<'dev>>,
    p8: Parameter<'dev>,
    p9: Leafy<'dev>,
    p10: Vec<Vec<Vec<Parameter<'dev>>>>,
    p11: Parameter<'dev>,
}
tree!([] Many<'static>; own p0: P, own p1: P, skip s2: P, own p3: Leafy<'static>, own p4: P, skip s5: P, skip s6: Lists<'static>,
    own p7: Vec<Solo<'static>>, own p8: P, own p9: Leafy<'static>, own p10: Vec<Vec<Vec<P>>>, own p11: P; );

pub enum Opt {
    S(SGD),
    M(MomentumSGD),
    A(Adam),
}
#[macro_export]
macro_rules! with {
    ($o:expr, $x:ident => $e:expr) => {
        match $o {
            Opt::S($x) => $e,
            Opt::M($x) => $e,
            Opt::A($x) => $e,
        }
    };
}

pub const FORMATS: [&str; 4] = ["text", "pretty", "value", "bin"];
pub trait Zoo: Tree {
    fn m(&self) -> Vec<&P>;
    fn m_mut(&mut self) -> Vec<&mut P>;
    fn go(&mut self, dev: &'static Device<'static>);
    fn configure(&mut self, o: &Opt);
    fn update(&mut self, o: &mut Opt);
    fn visit(&mut self, o: &mut dyn Visit);
    fn save(&self, fmt: &str) -> Vec<u8>;
    fn load(&self, fmt: &str, b: &[u8]) -> Box<dyn Zoo>;
}
pub trait Visit {
    fn list(&mut self, m: &mut [&mut P]);
    fn model(&mut self, m: &mut dyn Model<'static>);
}
impl<T: Tree + Model<'static> + Serialize + DeserializeOwned + 'static> Zoo for T {
    fn m(&self) -> Vec<&P> {
        self.parameters()
    }
    fn m_mut(&mut self) -> Vec<&mut P> {
        self.parameters_mut()
    }
    fn go(&mut self, dev: &'static Device<'static>) {
        self.move_to_device(dev)
    }
    fn configure(&mut self, o: &Opt) {
        with!(o, o => o.configure_model(self))
    }
    fn update(&mut self, o: &mut Opt) {
        with!(o, o => o.update_model(self))
    }
    fn visit(&mut self, o: &mut dyn Visit) {
        o.model(self)
    }
    fn save(&self, fmt: &str) -> Vec<u8> {
        match fmt {
            "text" => serde_json::to_vec(self).unwrap(),
            "pretty" => serde_json::to_string_pretty(self).unwrap().into_bytes(),
            "value" => serde_json::to_vec(&serde_json::to_value(self).unwrap()).unwrap(),
            _ => bincode::serialize(self).unwrap(),
        }
    }
    fn load(&self, fmt: &str, b: &[u8]) -> Box<dyn Zoo> {
        Box::new(match fmt {
            "text" => serde_json::from_slice::<T>(b).unwrap(),
            "pretty" => serde_json::from_reader::<_, T>(b).unwrap(),
            "value" => serde_json::from_value::<T>(serde_json::from_slice(b).unwrap()).unwrap(),
            _ => bincode::deserialize::<T>(b).unwrap(),
        })
    }
}

pub const NAMES: [&str; 20] = [
    "Solo", "Leafy", "Skippy", "Lists", "Deep", "Pair", "PairSkippy", "PairList", "Both", "BothDeep", "Wide", "Hollow", "Span",
    "Attr", "Hands", "Many", "ListOfLeafy", "ListOfLists", "ListOfP", "PairHollow",
];
pub fn make(name: &str, w: &mut World, full: bool) -> Box<dyn Zoo> {
    type D = Deep<'static>;
    match name {
        "Solo" => Box::new(Solo::make(w, full)),
        "Leafy" => Box::new(Leafy::make(w, full)),
        "Skippy" => Box::new(Skippy::make(w, full)),
        "Lists" => Box::new(Lists::make(w, full)),
        "Deep" => Box::new(D::make(w, full)),
        "Pair" => Box::new(Pair::<'static, Lists>::make(w, full)),
        "PairSkippy" => Box::new(Pair::<'static, Pair<'static, Skippy>>::make(w, full)),
        "PairList" => Box::new(Pair::<'static, Vec<P>>::make(w, full)),
        "PairHollow" => Box::new(Pair::<'static, Hollow>::make(w, full)),
        "Both" => Box::new(Both::<'static, Leafy, Skippy, u8>::make(w, full)),
        "BothDeep" => Box::new(Both::<'static, Vec<Vec<P>>, Both<'static, Wide<'static, 1>, Deep, u8>, u8>::make(w, full)),
        "Wide" => Box::new(Wide::<'static, 3>::make(w, full)),
        "Hollow" => Box::new(Hollow::make(w, full)),
        "Span" => Box::new(Span::make(w, full)),
        "Attr" => Box::new(Attr::make(w, full)),
        "Hands" => Box::new(Hands::make(w, full)),
        "Many" => Box::new(Many::make(w, full)),
        "ListOfLeafy" => Box::new(Vec::<Leafy>::make(w, full)),
        "ListOfLists" => Box::new(Vec::<Vec<P>>::make(w, full)),
        "ListOfP" => Box::new(Vec::<P>::make(w, full)),
        _ => panic!("HARNESS-ERROR no such model {}", name),
    }
}
