#[doc(hidden)]
#[allow(dead_code, missing_docs, unused)]
pub mod kscen {
    use crate::broker;
    use crate::message_bus;
    use crate::pubsub;
    use crate::pool;
    use crate::DeliveryStrategy;
    use kameo::prelude::*;
    use glob::Pattern;

    // ---- C42 broker: subscriptions under patterns in any relation, then publishes and unsubscribes
    pub async fn br_publish<M: Clone + Send + 'static>(d: DeliveryStrategy, c: &mut Context<broker::Broker<M>, ()>, p1: Pattern, p2: Pattern, r1: Recipient<M>, r2: Recipient<M>, t: String, m: M, t2: String, m2: M) -> broker::Broker<M> {
        let mut b = broker::Broker::new(d);
        b.handle(broker::Subscribe { topic: p1, recipient: r1 }, c).await;
        b.handle(broker::Subscribe { topic: p2, recipient: r2 }, c).await;
        b.handle(broker::Publish { topic: t, message: m }, c).await;
        b.handle(broker::Publish { topic: t2, message: m2 }, c).await;
        b
    }
    pub async fn br_publish3<M: Clone + Send + 'static>(d: DeliveryStrategy, c: &mut Context<broker::Broker<M>, ()>, p1: Pattern, p2: Pattern, r1: Recipient<M>, r2: Recipient<M>, t: String, m: M, p3: Pattern, r3: Recipient<M>) -> broker::Broker<M> {
        let mut b = broker::Broker::new(d);
        b.handle(broker::Subscribe { topic: p1, recipient: r1 }, c).await;
        b.handle(broker::Subscribe { topic: p2, recipient: r2 }, c).await;
        b.handle(broker::Subscribe { topic: p3, recipient: r3 }, c).await;
        b.handle(broker::Publish { topic: t, message: m }, c).await;
        b
    }
    pub async fn br_unsub<M: Clone + Send + 'static>(d: DeliveryStrategy, c: &mut Context<broker::Broker<M>, ()>, p1: Pattern, p2: Pattern, r1: Recipient<M>, r2: Recipient<M>, t: String, m: M, q: Option<Pattern>, id: ActorID) -> broker::Broker<M> {
        let mut b = broker::Broker::new(d);
        b.handle(broker::Subscribe { topic: p1, recipient: r1 }, c).await;
        b.handle(broker::Subscribe { topic: p2, recipient: r2 }, c).await;
        b.handle(broker::Unsubscribe { topic: q, actor_id: id }, c).await;
        b.handle(broker::Publish { topic: t, message: m }, c).await;
        b
    }
    // ---- C43 message bus
    pub async fn mb_publish<M: Clone + Send + 'static, N: Clone + Send + 'static>(d: DeliveryStrategy, c: &mut Context<message_bus::MessageBus, ()>, r1: Recipient<M>, r2: Recipient<M>, r3: Recipient<N>, m: M, m2: M, n: N) -> message_bus::MessageBus {
        let mut b = message_bus::MessageBus::new(d);
        b.handle(message_bus::Register(r1), c).await;
        b.handle(message_bus::Register(r2), c).await;
        b.handle(message_bus::Register(r3), c).await;
        b.handle(message_bus::Publish(m), c).await;
        b.handle(message_bus::Publish(n), c).await;
        b.handle(message_bus::Publish(m2), c).await;
        b
    }
    pub async fn mb_unreg<M: Clone + Send + 'static, N: Clone + Send + 'static>(d: DeliveryStrategy, c: &mut Context<message_bus::MessageBus, ()>, r1: Recipient<M>, r2: Recipient<M>, r3: Recipient<N>, m: M, n: N, id: ActorID) -> message_bus::MessageBus {
        let mut b = message_bus::MessageBus::new(d);
        b.handle(message_bus::Register(r1), c).await;
        b.handle(message_bus::Register(r2), c).await;
        b.handle(message_bus::Register(r3), c).await;
        b.handle(message_bus::Unregister::<M>::new(id), c).await;
        b.handle(message_bus::Publish(m), c).await;
        b.handle(message_bus::Publish(n), c).await;
        b
    }
    // ---- C44 pub-sub
    pub async fn ps_publish<A: Actor + Message<M>, B: Actor + Message<M>, M: Clone + Send + 'static, F: FnMut(&M) -> bool + Send + 'static>(a: ActorRef<A>, b: ActorRef<B>, f: F, m: M, m2: M) -> pubsub::PubSub<M> {
        let mut p = pubsub::PubSub::new();
        p.subscribe_filter(a, f);
        p.subscribe(b);
        p.publish(m).await;
        p.publish(m2).await;
        p
    }
    pub async fn ps_default<A: Actor + Message<M>, B: Actor + Message<M>, M: Clone + Send + 'static, F: FnMut(&M) -> bool + Send + 'static>(a: ActorRef<A>, b: ActorRef<B>, f: F, m: M, m2: M) -> pubsub::PubSub<M> {
        let mut p = pubsub::PubSub::default();
        p.subscribe(b);
        p.subscribe_filter(a, f);
        p.publish(m).await;
        p.publish(m2).await;
        p
    }
    pub async fn ps_messages<A: Actor + Message<M>, B: Actor + Message<M>, M: Clone + Send + 'static>(a: ActorRef<A>, b: ActorRef<B>, f: fn(&M) -> bool, m: M, m2: M, c: &mut Context<pubsub::PubSub<M>, ()>) -> pubsub::PubSub<M> {
        let mut p = pubsub::PubSub::new();
        p.handle(pubsub::SubscribeFilter(a, f), c).await;
        p.handle(pubsub::Subscribe(b), c).await;
        p.handle(pubsub::Publish(m), c).await;
        p.handle(pubsub::Publish(m2), c).await;
        p
    }
    // ---- C41 pool
    pub async fn pl_dispatch<A: Actor + Message<M, Reply = R>, M: Send + 'static, R: Reply, F: FnMut() -> ActorRef<A> + Send + Sync + 'static>(f: F, c: &mut Context<pool::ActorPool<A>, pool::WorkerReply<A, M>>, m: M) -> (pool::WorkerReply<A, M>, pool::ActorPool<A>) {
        let mut p = pool::ActorPool::new(2, f);
        let r = p.handle(pool::Dispatch(m), c).await;
        (r, p)
    }
    pub async fn pl_dispatch3<A: Actor + Message<M, Reply = R>, M: Send + 'static, R: Reply, F: FnMut() -> ActorRef<A> + Send + Sync + 'static>(f: F, c: &mut Context<pool::ActorPool<A>, pool::WorkerReply<A, M>>, m: M) -> (pool::WorkerReply<A, M>, pool::ActorPool<A>) {
        let mut p = pool::ActorPool::new(3, f);
        let r = p.handle(pool::Dispatch(m), c).await;
        (r, p)
    }
    pub async fn pl_broadcast<A: Actor + Message<M, Reply = R>, M: Clone + Send + 'static, R: Reply, F: FnMut() -> ActorRef<A> + Send + Sync + 'static>(f: F, c: &mut Context<pool::ActorPool<A>, Vec<Result<(), SendError<M, R::Error>>>>, m: M) -> (Vec<Result<(), SendError<M, R::Error>>>, pool::ActorPool<A>) {
        let mut p = pool::ActorPool::new(2, f);
        let r = p.handle(pool::Broadcast(m), c).await;
        (r, p)
    }
    pub async fn pl_start<A: Actor, F: FnMut() -> ActorRef<A> + Send + Sync + 'static>(f: F, s: ActorRef<pool::ActorPool<A>>) -> pool::ActorPool<A> {
        let mut p = pool::ActorPool::new(2, f);
        let _ = p.on_start(s).await;
        p
    }
    pub async fn pl_died<A: Actor + Message<M, Reply = R>, M: Clone + Send + 'static, R: Reply, F: FnMut() -> ActorRef<A> + Send + Sync + 'static>(f: F, w: WeakActorRef<pool::ActorPool<A>>, id: ActorID, reason: ActorStopReason, c: &mut Context<pool::ActorPool<A>, Vec<Result<(), SendError<M, R::Error>>>>, m: M) -> (Result<std::ops::ControlFlow<ActorStopReason>, kameo::error::Infallible>, Vec<Result<(), SendError<M, R::Error>>>, pool::ActorPool<A>) {
        let mut p = pool::ActorPool::new(2, f);
        let r = p.on_link_died(w, id, reason).await;
        let b = p.handle(pool::Broadcast(m), c).await;
        (r, b, p)
    }
    pub async fn pl_died_async<A: Actor + Message<M, Reply = R>, M: Clone + Send + 'static, R: Reply, F: FnMut() -> Fu + Clone + Send + Sync + 'static, Fu: std::future::Future<Output = ActorRef<A>> + Send + 'static>(f: F, w: WeakActorRef<pool::ActorPool<A>>, id: ActorID, reason: ActorStopReason, c: &mut Context<pool::ActorPool<A>, Vec<Result<(), SendError<M, R::Error>>>>, m: M) -> (Result<std::ops::ControlFlow<ActorStopReason>, kameo::error::Infallible>, Vec<Result<(), SendError<M, R::Error>>>, pool::ActorPool<A>) {
        let mut p = pool::ActorPool::new_async(2, f).await;
        let r = p.on_link_died(w, id, reason).await;
        let b = p.handle(pool::Broadcast(m), c).await;
        (r, b, p)
    }
    pub async fn pl_start_async<A: Actor, F: FnMut() -> Fu + Clone + Send + Sync + 'static, Fu: std::future::Future<Output = ActorRef<A>> + Send + 'static>(f: F, s: ActorRef<pool::ActorPool<A>>) -> pool::ActorPool<A> {
        let mut p = pool::ActorPool::new_async(2, f).await;
        let _ = p.on_start(s).await;
        p
    }
    pub fn pl_zero<A: Actor, F: FnMut() -> ActorRef<A> + Send + Sync + 'static>(f: F) -> pool::ActorPool<A> {
        pool::ActorPool::new(0, f)
    }
    pub async fn pl_zero_async<A: Actor, F: FnMut() -> Fu + Clone + Send + Sync + 'static, Fu: std::future::Future<Output = ActorRef<A>> + Send + 'static>(f: F) -> pool::ActorPool<A> {
        pool::ActorPool::new_async(0, f).await
    }
    pub fn pl_err<A: Actor + Message<M, Reply = R>, M: Send + 'static, R: Reply>(e: SendError<M, R::Error>) -> SendError<pool::Dispatch<M>, R::Error> {
        <pool::WorkerReply<A, M> as Reply>::downcast_err(SendError::HandlerError(Box::new(e)))
    }
    pub fn pl_err_own<A: Actor + Message<M, Reply = R>, M: Send + 'static, R: Reply>(m: M) -> SendError<pool::Dispatch<M>, R::Error> {
        <pool::WorkerReply<A, M> as Reply>::downcast_err(SendError::ActorNotRunning(Box::new(pool::Dispatch(m))))
    }
    pub fn pl_any_err<A: Actor + Message<M, Reply = R>, M: Send + 'static, R: Reply>(r: pool::WorkerReply<A, M>) -> Option<Box<dyn kameo::reply::ReplyError>> {
        r.into_any_err()
    }
}
