#[doc(hidden)]
#[allow(dead_code, missing_docs, unused)]
pub mod kscen {
    use crate::actor::*;
    use crate::error::*;
    use crate::registry::*;
    use crate::Actor;

    // two entries of different actor types, in any relation of their names, then one operation with a third name
    pub fn rg_get<A: Actor, B: Actor>(n1: &'static str, n2: &'static str, q: &'static str, a: ActorRef<A>, b: ActorRef<B>) -> (bool, bool, Result<Option<ActorRef<A>>, RegistryError>) {
        let mut r = ActorRegistry::new();
        let x = r.insert(n1, a);
        let y = r.insert(n2, b);
        let z = r.get::<A, str>(q);
        (x, y, z)
    }
    // the same with two actors of one type
    pub fn rg_same<A: Actor>(n1: &'static str, n2: &'static str, q: &'static str, a: ActorRef<A>, b: ActorRef<A>) -> (bool, bool, Result<Option<ActorRef<A>>, RegistryError>) {
        let mut r = ActorRegistry::new();
        let x = r.insert(n1, a);
        let y = r.insert(n2, b);
        let z = r.get::<A, str>(q);
        (x, y, z)
    }
    pub fn rg_ref_same<A: Actor>(n1: &'static str, n2: &'static str, q: &'static str, a: &ActorRef<A>, b: &ActorRef<A>) -> (bool, bool, Result<Option<ActorRef<A>>, RegistryError>) {
        let x = a.register(n1).is_ok();
        let y = b.register(n2).is_ok();
        (x, y, ActorRef::<A>::lookup::<str>(q))
    }
    // a name taken again after its entry was removed
    pub fn rg_again<A: Actor, B: Actor>(n1: &'static str, n2: &'static str, q: &'static str, a: ActorRef<A>, b: ActorRef<B>) -> (bool, bool, Result<Option<ActorRef<B>>, RegistryError>) {
        let mut r = ActorRegistry::new();
        r.insert(n1, a);
        let x = r.remove::<str>(n1);
        let y = r.insert(n2, b);
        (x, y, r.get::<B, str>(q))
    }
    pub fn rg_default_get<A: Actor>(cap: usize, n1: &'static str, q: &'static str, a: ActorRef<A>) -> Result<Option<ActorRef<A>>, RegistryError> {
        let mut r = ActorRegistry::with_capacity(cap);
        r.insert(n1, a);
        r.get::<A, str>(q)
    }
    pub fn rg_string<A: Actor>(n1: String, q: &'static str, a: ActorRef<A>) -> Result<Option<ActorRef<A>>, RegistryError> {
        let mut r = ActorRegistry::default();
        r.insert(n1, a);
        r.get::<A, str>(q)
    }
    pub fn rg_contains<A: Actor, B: Actor>(n1: &'static str, n2: &'static str, q: &'static str, a: ActorRef<A>, b: ActorRef<B>) -> (bool, usize, bool) {
        let mut r = ActorRegistry::new();
        r.insert(n1, a);
        r.insert(n2, b);
        (r.contains_name::<str>(q), r.len(), r.is_empty())
    }
    pub fn rg_names<A: Actor, B: Actor>(n1: &'static str, n2: &'static str, a: ActorRef<A>, b: ActorRef<B>) -> Vec<std::borrow::Cow<'static, str>> {
        let mut r = ActorRegistry::new();
        r.insert(n1, a);
        r.insert(n2, b);
        let mut v = Vec::new();
        for n in r.names() { v.push(n.clone()); }
        v
    }
    pub fn rg_remove<A: Actor, B: Actor>(n1: &'static str, n2: &'static str, q: &'static str, p: &'static str, a: ActorRef<A>, b: ActorRef<B>) -> (bool, bool, Result<Option<ActorRef<A>>, RegistryError>) {
        let mut r = ActorRegistry::new();
        r.insert(n1, a);
        r.insert(n2, b);
        let x = r.remove::<str>(q);
        let y = r.remove::<str>(q);
        (x, y, r.get::<A, str>(p))
    }
    pub fn rg_clear<A: Actor, B: Actor>(n1: &'static str, n2: &'static str, q: &'static str, a: ActorRef<A>, b: ActorRef<B>) -> (bool, usize, Result<Option<ActorRef<A>>, RegistryError>) {
        let mut r = ActorRegistry::new();
        r.insert(n1, a);
        r.insert(n2, b);
        r.clear();
        (r.is_empty(), r.len(), r.get::<A, str>(q))
    }
    // through actor references
    pub fn rg_ref_register<A: Actor>(n: &'static str, a: &ActorRef<A>) -> Result<(), RegistryError> { a.register(n) }
    pub fn rg_ref_lookup<A: Actor>(q: &'static str) -> Result<Option<ActorRef<A>>, RegistryError> { ActorRef::<A>::lookup::<str>(q) }
    pub fn rg_ref_both<A: Actor, B: Actor>(n1: &'static str, n2: &'static str, q: &'static str, a: &ActorRef<A>, b: &ActorRef<B>) -> (bool, bool, Result<Option<ActorRef<A>>, RegistryError>) {
        let x = a.register(n1).is_ok();
        let y = b.register(n2).is_ok();
        (x, y, ActorRef::<A>::lookup::<str>(q))
    }
    pub fn rg_ref_registry<A: Actor>(n: &'static str, q: &'static str, a: &ActorRef<A>) -> Result<Option<ActorRef<A>>, RegistryError> {
        let _ = a.register(n);
        ACTOR_REGISTRY.lock().unwrap().get::<A, str>(q)
    }
    pub fn rg_registry_ref<A: Actor>(n: &'static str, q: &'static str, a: ActorRef<A>) -> Result<Option<ActorRef<A>>, RegistryError> {
        ACTOR_REGISTRY.lock().unwrap().insert(n, a);
        ActorRef::<A>::lookup::<str>(q)
    }

    // ---- C28 identifiers
    pub fn id_round(id: &ActorID) -> Result<(bool, u64, u64), ActorIDFromBytesError> {
        let back = ActorID::from_bytes(&id.to_bytes())?;
        Ok((back == *id, back.sequence_id(), id.sequence_id()))
    }
    pub fn id_decode(b: &[u8]) -> Result<u64, ActorIDFromBytesError> { Ok(ActorID::from_bytes(b)?.sequence_id()) }
    pub fn id_eq(a: &ActorID, b: &ActorID) -> (bool, u64, u64) { (*a == *b, a.sequence_id(), b.sequence_id()) }
    pub fn id_hash<H: std::hash::Hasher>(a: &ActorID, h: &mut H) -> u64 {
        std::hash::Hash::hash(a, h);
        a.sequence_id()
    }
    pub fn id_de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<u64, D::Error> {
        let id: ActorID = serde::Deserialize::deserialize(d)?;
        Ok(id.sequence_id())
    }
}
