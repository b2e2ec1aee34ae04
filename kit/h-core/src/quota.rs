use pbt::{ensure, ensure_eq, gen, Case, Fail, Suite};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use vercre_core::{Kind, Quota};

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
struct Item { id: String, #[serde(skip_serializing_if = "Option::is_none")] n: Option<i64>, #[serde(default)] tags: Vec<String> }
fn item(s: &mut pbt::Src) -> Item { if s.chance(1, 8) { return Item::default(); } Item { id: gen::ident(s), n: s.opt(|s| s.int(-9, 9)), tags: s.vec(0, 2, gen::ident) } }

fn history<T: Clone + Default + PartialEq + std::fmt::Debug + Serialize + serde::de::DeserializeOwned>(s: &mut pbt::Src, item: impl Fn(&mut pbt::Src) -> T + Copy) -> Result<Case, Fail> {
    let mut model: Vec<T>;
    let mut one;
    let mut q = if s.bool() { let i = item(s); model = vec![i.clone()]; one = true; Quota::One(i) } else { let v = s.vec(0, 4, item); model = v.clone(); one = false; Quota::Many(v) };
    let long = s.weighted(&[2000, 40, 1]);
    let adds = match long { 0 => s.vec(0, 5, item), 1 => s.vec(5, 40, item), _ => s.vec(200, 1200, item) };
    let n = adds.len();
    for (i, a) in std::iter::once(None).chain(adds.into_iter().map(Some)).enumerate() {
        if let Some(a) = a { q.add(a.clone()); model.push(a); one = false; }
        if long == 2 && i != n { continue; }
        ensure_eq!(q.len(), model.len(), "len", "length of {q:?}");
        ensure_eq!(q.is_empty(), model.is_empty(), "is_empty", "emptiness of {q:?}");
        ensure!(q.is_one() != q.is_many(), "exclusive", "{q:?} is one and many, or neither");
        ensure_eq!(q.is_one(), one, "is_one", "shape of {q:?}");
        let items: Vec<T> = match &q { Quota::One(i) => vec![i.clone()], Quota::Many(v) => v.clone() };
        ensure_eq!(items, model, "items", "items of {q:?}");
        let j = serde_json::to_value(&q).unwrap();
        let want = if one { serde_json::to_value(&model[0]).unwrap() } else { serde_json::to_value(&model).unwrap() };
        ensure_eq!(j, want, "json", "JSON of {q:?}");
        let back: Quota<T> = serde_json::from_value(j.clone()).map_err(|e| Fail::new("json-back", format!("{j}: {e}")))?;
        ensure_eq!(back, q, "roundtrip", "{j}");
    }
    let d = Quota::<T>::default();
    ensure!(d == Quota::One(T::default()), "default", "{d:?}");
    Ok(Case::new(n > 0 || model.len() > 1, format!("{} items, {n} added: {model:?}", model.len())))
}
pub fn quota() -> ! {
    let mut su = Suite::new("C06", "one-or-many and string-or-object values over generated items: histories of additions against a list model, and JSON forms both ways; non-trivial: the history has an addition, or the value is an object or a list");
    su.scale(300);
    su.check("quota", 12_000, 200_000, |s| history(s, item));
    su.check("quota-scalar", 4_000, 60_000, |s| match s.upto(3) {
        0 => history(s, gen::ident),
        1 => history(s, |s| s.int(-2, 2)),
        2 => history(s, |s| if s.bool() { Kind::String(gen::ident(s)) } else { Kind::Object(item(s)) }),
        _ => history(s, |s| gen::object(s, 1)),
    });
    su.check("kind", 12_000, 200_000, |s| {
        let k = if s.bool() { Kind::String(gen::ident(s)) } else { Kind::Object(item(s)) };
        let j = serde_json::to_value(&k).unwrap();
        match &k {
            Kind::String(t) => {
                ensure_eq!(j, Value::String(t.clone()), "string-json", "JSON of {k:?}");
                ensure_eq!((k.is_string(), k.is_object()), (true, false), "string", "shape of {k:?}");
            }
            Kind::Object(o) => {
                ensure_eq!(j, serde_json::to_value(o).unwrap(), "object-json", "JSON of {k:?}");
                ensure_eq!((k.is_string(), k.is_object()), (false, true), "object", "shape of {k:?}");
            }
        }
        let back: Kind<Item> = serde_json::from_str(&j.to_string()).map_err(|e| Fail::new("json-back", format!("{j}: {e}")))?;
        ensure_eq!(back, k, "roundtrip", "{j}");
        // a string stays a string whatever the object could be read from
        if let Kind::String(t) = &k {
            let v: Kind<Value> = serde_json::from_str(&j.to_string()).map_err(|e| Fail::new("json-back", format!("{j}: {e}")))?;
            ensure_eq!(v, Kind::String(t.clone()), "string-any", "{j} read as string or any value");
        }
        ensure!(Kind::<Item>::default() == Kind::String(String::new()), "default", "default kind");
        Ok(Case::new(matches!(k, Kind::Object(_)), j.to_string()))
    });
    su.finish()
}
