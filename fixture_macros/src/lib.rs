//! Expansions of kameo's macros over the shapes of items they accept. The rules of C45-C47 analyse what they expand to.
#![allow(dead_code, unused_variables)]

/// methods turned into messages
pub mod msgs {
    use kameo::message::{Context, Message};
    use kameo::{messages, Actor, Reply};

    #[derive(Actor)]
    pub struct Plain {
        pub n: u64,
    }

    #[derive(Reply)]
    pub struct Pair(pub u8, pub u16);

    #[messages]
    impl Plain {
        pub fn new(n: u64) -> Self {
            Plain { n }
        }

        #[message]
        pub fn zero(&mut self) {
            self.n = 0;
        }

        #[message]
        pub fn zero_get(&self) -> u64 {
            self.n
        }

        /// one documented parameter
        #[message]
        pub fn one(&self, a: u32) -> u32 {
            a
        }

        fn two_plain(&mut self, a: u64, b: u64) -> u64 {
            a ^ b
        }

        #[message]
        fn two(&mut self, a: u64, b: u64) -> u64 {
            self.two_plain(a, b)
        }

        #[message]
        pub async fn three(&mut self, c: String, a: String, b: String) -> Result<String, String> {
            Ok(a + &b + &c)
        }

        #[message(derive(Clone, Copy, Debug))]
        pub(crate) async fn four(&self, d: u8, a: u16, c: u8, b: u16) -> Pair {
            Pair(d ^ c, a ^ b)
        }

        #[doc = "many"]
        #[message]
        #[allow(clippy::too_many_arguments)]
        pub async fn many(&mut self, /** the first */ p5: i64, p3: i64, p1: i64, p6: i64, p2: i64, p4: i64) -> Option<i64> {
            Some(p1 + p2 + p3 + p4 + p5 + p6)
        }

        #[message(derive(PartialEq), derive(Eq))]
        pub fn get_v2_item(&mut self, mut item_id: u32, name: Option<String>, data: [u8; 4]) -> Vec<u8> {
            item_id += 1;
            data.to_vec()
        }

        #[message]
        pub async fn nested(&mut self, a: (u8, (u8, u8)), f: fn(u8) -> u8, b: Box<dyn Fn() + Send>) -> bool {
            true
        }

        #[message]
        pub async fn later(&mut self) {}

        #[message]
        pub fn generic<M: Send + 'static>(&mut self, x: M, y: M) -> Option<u8> {
            None
        }

        #[message]
        pub async fn generic_where<M, N>(&mut self, x: N, y: M, z: u8) -> Option<u8>
        where
            M: Send + 'static,
            N: Clone + Send + 'static,
        {
            None
        }
    }

    pub struct Held<T, U: Clone = u8>
    where
        T: Send + 'static,
        U: Send + 'static,
    {
        pub t: T,
        pub u: U,
    }

    impl<T: Send + 'static, U: Clone + Send + 'static> Actor for Held<T, U> {
        type Error = kameo::error::Infallible;
    }

    #[messages]
    impl<T: Send + 'static, U: Clone + Send + 'static> Held<T, U> {
        #[message]
        pub fn put(&mut self, t: T, u: U) {
            self.t = t;
            self.u = u;
        }

        #[message]
        pub async fn swap(&mut self, second: T, first: T) -> Option<T> {
            Some(first)
        }

        #[message]
        pub fn held_plain(&self, a: u8, b: u8) -> u8 {
            a ^ b
        }
    }

    // what a sender does
    pub async fn h_zero(a: &mut Plain, m: Zero, c: &mut Context<Plain, ()>) { a.handle(m, c).await }
    pub async fn h_zero_get(a: &mut Plain, m: ZeroGet, c: &mut Context<Plain, u64>) -> u64 { a.handle(m, c).await }
    pub async fn h_one(a: &mut Plain, m: One, c: &mut Context<Plain, u32>) -> u32 { a.handle(m, c).await }
    pub(self) async fn h_two(a: &mut Plain, m: Two, c: &mut Context<Plain, u64>) -> u64 { a.handle(m, c).await }
    pub async fn h_three(a: &mut Plain, m: Three, c: &mut Context<Plain, Result<String, String>>) -> Result<String, String> { a.handle(m, c).await }
    pub(crate) async fn h_four(a: &mut Plain, m: Four, c: &mut Context<Plain, Pair>) -> Pair { a.handle(m, c).await }
    pub async fn h_many(a: &mut Plain, m: Many, c: &mut Context<Plain, Option<i64>>) -> Option<i64> { a.handle(m, c).await }
    pub async fn h_get_v2_item(a: &mut Plain, m: GetV2Item, c: &mut Context<Plain, Vec<u8>>) -> Vec<u8> { a.handle(m, c).await }
    pub async fn h_nested(a: &mut Plain, m: Nested, c: &mut Context<Plain, bool>) -> bool { a.handle(m, c).await }
    pub async fn h_later(a: &mut Plain, m: Later, c: &mut Context<Plain, ()>) { a.handle(m, c).await }
    pub async fn h_generic<M: Send + 'static>(a: &mut Plain, m: Generic<M>, c: &mut Context<Plain, Option<u8>>) -> Option<u8> { a.handle(m, c).await }
    pub async fn h_generic_where<M: Send + 'static, N: Clone + Send + 'static>(a: &mut Plain, m: GenericWhere<M, N>, c: &mut Context<Plain, Option<u8>>) -> Option<u8> { a.handle(m, c).await }
    pub async fn h_put<T: Send + 'static, U: Clone + Send + 'static>(a: &mut Held<T, U>, m: Put<T, U>, c: &mut Context<Held<T, U>, ()>) { a.handle(m, c).await }
    pub async fn h_swap<T: Send + 'static, U: Clone + Send + 'static>(a: &mut Held<T, U>, m: Swap<T>, c: &mut Context<Held<T, U>, Option<T>>) -> Option<T> { a.handle(m, c).await }
    pub async fn h_held_plain<T: Send + 'static, U: Clone + Send + 'static>(a: &mut Held<T, U>, m: HeldPlain, c: &mut Context<Held<T, U>, u8>) -> u8 { a.handle(m, c).await }

    fn is_copy<T: Clone + Copy + std::fmt::Debug>() {}
    fn is_eq<T: PartialEq + Eq>() {}
    fn attributes() {
        is_copy::<Four>();
        is_eq::<GetV2Item>();
    }
}

/// messages are as visible as their methods
pub mod outside {
    pub fn make() -> (super::msgs::Zero, super::msgs::One, super::msgs::Four) {
        (super::msgs::Zero, super::msgs::One { a: 1 }, super::msgs::Four { d: 1, a: 2, c: 3, b: 4 })
    }
}

/// registrations
pub mod regs {
    use kameo::message::{Context, Message};
    use kameo::{remote_message, Actor, RemoteActor};
    use serde::{Deserialize, Serialize};

    #[derive(Actor, RemoteActor)]
    #[remote_actor(id = "actor.named")]
    pub struct Named;

    pub mod deep {
        use kameo::{Actor, RemoteActor};

        #[derive(Actor, RemoteActor)]
        pub struct Defaulted {
            pub n: u8,
        }
    }
    use deep::Defaulted;

    #[derive(Serialize, Deserialize)]
    pub struct M1(pub u8);
    #[derive(Serialize, Deserialize)]
    pub struct M2 {
        pub a: u16,
    }
    #[derive(Serialize, Deserialize)]
    pub struct Wrapped<T>(pub T);

    #[remote_message("named.m1")]
    impl Message<M1> for Named {
        type Reply = u8;
        async fn handle(&mut self, m: M1, _: &mut Context<Self, Self::Reply>) -> u8 {
            m.0
        }
    }

    #[remote_message("named.m2")]
    impl Message<M2> for Named {
        type Reply = Result<u16, String>;
        async fn handle(&mut self, m: M2, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
            Ok(m.a)
        }
    }

    #[remote_message("defaulted.m1")]
    impl Message<M1> for Defaulted {
        type Reply = ();
        async fn handle(&mut self, _: M1, _: &mut Context<Self, Self::Reply>) {}
    }

    #[remote_message("defaulted.wrapped")]
    impl kameo::message::Message<Wrapped<M2>> for deep::Defaulted {
        type Reply = u16;
        async fn handle(&mut self, m: Wrapped<M2>, _: &mut Context<Self, Self::Reply>) -> u16 {
            m.0.a
        }
    }

    #[derive(RemoteActor)]
    pub struct OnlyRemote;
    impl Actor for OnlyRemote {
        type Error = kameo::error::Infallible;
    }

    pub fn id_named() -> &'static str { <Named as kameo::remote::RemoteActor>::REMOTE_ID }
    pub fn id_defaulted() -> &'static str { <Defaulted as kameo::remote::RemoteActor>::REMOTE_ID }
    pub fn id_only() -> &'static str { <OnlyRemote as kameo::remote::RemoteActor>::REMOTE_ID }
    pub fn mid_named_m1() -> &'static str { <Named as kameo::remote::RemoteMessage<M1>>::REMOTE_ID }
    pub fn mid_named_m2() -> &'static str { <Named as kameo::remote::RemoteMessage<M2>>::REMOTE_ID }
    pub fn mid_defaulted_m1() -> &'static str { <Defaulted as kameo::remote::RemoteMessage<M1>>::REMOTE_ID }
    pub fn mid_defaulted_wrapped() -> &'static str { <Defaulted as kameo::remote::RemoteMessage<Wrapped<M2>>>::REMOTE_ID }

}

/// derived actors and replies
pub mod derives {
    use kameo::{Actor, Reply};

    #[derive(Actor)]
    pub struct Bare;

    #[derive(Actor)]
    #[actor(name = "a given name")]
    pub struct Given {
        pub x: u8,
    }

    #[derive(Actor)]
    pub struct Gen<'a, T: Clone, const N: usize>(pub [T; N], pub std::marker::PhantomData<&'a ()>)
    where
        T: Send + 'static,
        'a: 'static;

    #[derive(Actor)]
    pub enum Choice {
        A,
        B(u8),
    }

    /// what an actor is like that defines nothing
    pub struct Hand;
    impl Actor for Hand {
        type Error = kameo::error::Infallible;
    }

    #[derive(Reply)]
    pub struct Unit;

    #[derive(Reply)]
    pub struct Fields<T: Clone = u8>
    where
        T: Send + 'static,
    {
        pub a: T,
        pub b: String,
    }

    #[derive(Reply)]
    pub enum Sum<T: Send + 'static, const N: usize> {
        A(T),
        B { x: [u8; N] },
    }

    pub fn n_bare() -> &'static str { <Bare as Actor>::name() }
    pub fn n_given() -> &'static str { <Given as Actor>::name() }
    pub fn n_gen<T: Clone + Send + 'static, const N: usize>() -> &'static str { <Gen<'static, T, N> as Actor>::name() }
    pub fn n_choice() -> &'static str { <Choice as Actor>::name() }

    macro_rules! hooks {
        ($m:ident, [$($g:tt)*], $t:ty) => {
            pub mod $m {
                use super::*;
                use kameo::actor::{ActorRef, ActorID, WeakActorRef};
                use kameo::error::{ActorStopReason, Infallible, PanicError};
                use kameo::mailbox::{MailboxReceiver, Signal};
                use kameo::message::BoxMessage;
                use kameo::reply::BoxReplySender;
                use std::ops::ControlFlow;
                pub async fn on_start<$($g)*>(a: &mut $t, r: ActorRef<$t>) -> Result<(), Infallible> { Actor::on_start(a, r).await }
                pub async fn on_panic<$($g)*>(a: &mut $t, r: WeakActorRef<$t>, e: PanicError) -> Result<ControlFlow<ActorStopReason>, Infallible> { Actor::on_panic(a, r, e).await }
                pub async fn on_link_died<$($g)*>(a: &mut $t, r: WeakActorRef<$t>, id: ActorID, w: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, Infallible> { Actor::on_link_died(a, r, id, w).await }
                pub async fn on_stop<$($g)*>(a: &mut $t, r: WeakActorRef<$t>, w: ActorStopReason) -> Result<(), Infallible> { Actor::on_stop(a, r, w).await }
                pub async fn next<$($g)*>(a: &mut $t, r: WeakActorRef<$t>, m: &mut MailboxReceiver<$t>) -> Option<Signal<$t>> { Actor::next(a, r, m).await }
                pub async fn on_message<$($g)*>(a: &mut $t, m: BoxMessage<$t>, r: ActorRef<$t>, tx: Option<BoxReplySender>) -> Result<(), Box<dyn kameo::reply::ReplyError>> { Actor::on_message(a, m, r, tx).await }
            }
        };
    }
    hooks!(bare, [], Bare);
    hooks!(given, [], Given);
    hooks!(gen, [T: Clone + Send + 'static, const N: usize], Gen<'static, T, N>);
    hooks!(choice, [], Choice);
    hooks!(hand, [], Hand);

    macro_rules! reply {
        ($m:ident, [$($g:tt)*], $t:ty) => {
            pub mod $m {
                use super::*;
                pub fn to_result<$($g)*>(v: $t) -> Result<$t, kameo::error::Infallible> { Reply::to_result(v) }
                pub fn into_any_err<$($g)*>(v: $t) -> Option<Box<dyn kameo::reply::ReplyError>> { Reply::into_any_err(v) }
                pub fn into_value<$($g)*>(v: $t) -> $t { Reply::into_value(v) }
            }
        };
    }
    reply!(unit, [], Unit);
    reply!(fields, [T: Clone + Send + 'static], Fields<T>);
    reply!(sum, [T: Send + 'static, const N: usize], Sum<T, N>);
}
