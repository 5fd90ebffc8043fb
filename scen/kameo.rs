#[doc(hidden)]
#[allow(dead_code, missing_docs, unused)]
pub mod kscen {
    use crate::actor::*;
    use crate::error::*;
    use crate::message::*;
    use crate::reply::*;
    use crate::Actor;
    use crate::mailbox::*;
    use std::time::Duration;

    // ---- C01 tell
    pub async fn tell_send<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M) -> Result<(), SendError<M>> {
        r.tell(m).send().await
    }
    pub async fn tell_await<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M) -> Result<(), SendError<M>> {
        r.tell(m).await
    }
    pub async fn tell_timeout_send<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, d: Duration) -> Result<(), SendError<M>> {
        r.tell(m).mailbox_timeout(d).send().await
    }
    pub async fn tell_timeout_await<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, d: Duration) -> Result<(), SendError<M>> {
        r.tell(m).mailbox_timeout(d).await
    }
    pub fn tell_try<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M) -> Result<(), SendError<M>> {
        r.tell(m).try_send()
    }
    pub fn tell_blocking<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M) -> Result<(), SendError<M>> {
        r.tell(m).blocking_send()
    }
    pub async fn rtell_send<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M) -> Result<(), SendError<M>> {
        let r = r.clone().recipient::<M>();
        r.tell(m).send().await
    }
    pub async fn rtell_await<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M) -> Result<(), SendError<M>> {
        let r = r.clone().recipient::<M>();
        r.tell(m).await
    }
    pub async fn rtell_timeout_send<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, d: Duration) -> Result<(), SendError<M>> {
        let r = r.clone().recipient::<M>();
        r.tell(m).mailbox_timeout(d).send().await
    }
    pub async fn rtell_timeout_await<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, d: Duration) -> Result<(), SendError<M>> {
        let r = r.clone().recipient::<M>();
        r.tell(m).mailbox_timeout(d).await
    }
    pub fn rtell_try<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M) -> Result<(), SendError<M>> {
        let r = r.clone().recipient::<M>();
        r.tell(m).try_send()
    }
    pub fn rtell_blocking<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M) -> Result<(), SendError<M>> {
        let r = r.clone().recipient::<M>();
        r.tell(m).blocking_send()
    }

    // ---- C02 / C03 / C06 ask
    pub async fn ask_send<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M) -> Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>> {
        r.ask(m).send().await
    }
    pub async fn ask_await<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M) -> Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>> {
        r.ask(m).await
    }
    pub async fn ask_mt<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, mt: Duration) -> Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>> {
        r.ask(m).mailbox_timeout(mt).send().await
    }
    pub async fn ask_rt<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, rt: Duration) -> Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>> {
        r.ask(m).reply_timeout(rt).send().await
    }
    pub async fn ask_mt_rt<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, mt: Duration, rt: Duration) -> Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>> {
        r.ask(m).mailbox_timeout(mt).reply_timeout(rt).send().await
    }
    pub async fn ask_rt_mt<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, mt: Duration, rt: Duration) -> Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>> {
        r.ask(m).reply_timeout(rt).mailbox_timeout(mt).await
    }
    pub async fn ask_try<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M) -> Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>> {
        r.ask(m).try_send().await
    }
    pub async fn ask_try_rt<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, rt: Duration) -> Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>> {
        r.ask(m).reply_timeout(rt).try_send().await
    }
    pub fn ask_blocking<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M) -> Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>> {
        r.ask(m).blocking_send()
    }

    // ---- C04 enqueue
    pub async fn enq_send<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M) -> Result<Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>>, SendError> {
        let p = r.ask(m).enqueue().await?;
        Ok(p.await)
    }
    pub async fn enq_mt_rt<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, mt: Duration, rt: Duration) -> Result<Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>>, SendError> {
        let p = r.ask(m).mailbox_timeout(mt).reply_timeout(rt).enqueue().await?;
        Ok(p.await)
    }
    pub async fn enq_mt<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, mt: Duration) -> Result<Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>>, SendError> {
        let p = r.ask(m).mailbox_timeout(mt).enqueue().await?;
        Ok(p.await)
    }
    pub async fn enq_rt<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, rt: Duration) -> Result<Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>>, SendError> {
        let p = r.ask(m).reply_timeout(rt).enqueue().await?;
        Ok(p.await)
    }
    pub async fn enq_try<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M) -> Result<Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>>, SendError> {
        let p = r.ask(m).try_enqueue()?;
        Ok(p.await)
    }
    pub async fn enq_try_rt<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, rt: Duration) -> Result<Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>>, SendError> {
        let p = r.ask(m).reply_timeout(rt).try_enqueue()?;
        Ok(p.await)
    }
    pub fn enq_blocking<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M) -> Result<Result<<A::Reply as Reply>::Ok, SendError<M, <A::Reply as Reply>::Error>>, SendError> {
        let p = r.ask(m).blocking_enqueue()?;
        Ok(p.recv())
    }

    // ---- C05 forward
    pub async fn fwd_send<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, tx: ReplySender<<A::Reply as Reply>::Value>) -> Result<(), SendError<(M, ReplySender<<A::Reply as Reply>::Value>), <A::Reply as Reply>::Error>> {
        r.ask(m).forward(tx).await
    }
    pub async fn fwd_mt<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, tx: ReplySender<<A::Reply as Reply>::Value>, mt: Duration) -> Result<(), SendError<(M, ReplySender<<A::Reply as Reply>::Value>), <A::Reply as Reply>::Error>> {
        r.ask(m).mailbox_timeout(mt).forward(tx).await
    }
    pub fn fwd_try<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, tx: ReplySender<<A::Reply as Reply>::Value>) -> Result<(), SendError<(M, ReplySender<<A::Reply as Reply>::Value>), <A::Reply as Reply>::Error>> {
        r.ask(m).try_forward(tx)
    }
    pub fn fwd_blocking<A: Actor + Message<M>, M: Send + 'static>(r: &ActorRef<A>, m: M, tx: ReplySender<<A::Reply as Reply>::Value>) -> Result<(), SendError<(M, ReplySender<<A::Reply as Reply>::Value>), <A::Reply as Reply>::Error>> {
        r.ask(m).blocking_forward(tx)
    }
    pub async fn ctx_fwd<A: Actor + Message<M>, M: Send + 'static, B: Actor, R: Reply>(ctx: &mut Context<B, R>, r: &ActorRef<A>, m: M) -> ForwardedReply<M, A::Reply> {
        ctx.forward(r, m).await
    }
    pub fn ctx_fwd_try<A: Actor + Message<M>, M: Send + 'static, B: Actor, R: Reply>(ctx: &mut Context<B, R>, r: &ActorRef<A>, m: M) -> ForwardedReply<M, A::Reply> {
        ctx.try_forward(r, m)
    }
    pub fn ctx_fwd_blocking<A: Actor + Message<M>, M: Send + 'static, B: Actor, R: Reply>(ctx: &mut Context<B, R>, r: &ActorRef<A>, m: M) -> ForwardedReply<M, A::Reply> {
        ctx.blocking_forward(r, m)
    }
    // the asker's end of a forwarded request: errors of every origin
    pub fn fwd_err_inner<M: Send + 'static, R: Reply, N: Send + 'static>(e: R::Error) -> SendError<N, SendError<M, R::Error>> {
        let e: SendError<N, R::Error> = SendError::HandlerError(e);
        <ForwardedReply<M, R> as Reply>::downcast_err::<N>(e.boxed())
    }
    pub fn fwd_err_outer<M: Send + 'static, R: Reply, N: Send + 'static>(e: SendError<M, R::Error>) -> SendError<N, SendError<M, R::Error>> {
        let e: SendError<N, SendError<M, R::Error>> = SendError::HandlerError(e);
        <ForwardedReply<M, R> as Reply>::downcast_err::<N>(e.boxed())
    }
    pub fn fwd_err_nested_inner<M: Send + 'static, K: Send + 'static, R: Reply, N: Send + 'static>(e: R::Error) -> SendError<N, SendError<M, SendError<K, R::Error>>> {
        let e: SendError<N, R::Error> = SendError::HandlerError(e);
        <ForwardedReply<M, ForwardedReply<K, R>> as Reply>::downcast_err::<N>(e.boxed())
    }
    pub fn fwd_err_nested_mid<M: Send + 'static, K: Send + 'static, R: Reply, N: Send + 'static>(e: SendError<K, R::Error>) -> SendError<N, SendError<M, SendError<K, R::Error>>> {
        let e: SendError<N, SendError<K, R::Error>> = SendError::HandlerError(e);
        <ForwardedReply<M, ForwardedReply<K, R>> as Reply>::downcast_err::<N>(e.boxed())
    }
    pub fn fwd_err_stopped<M: Send + 'static, R: Reply, N: Send + 'static>() -> SendError<N, SendError<M, R::Error>> {
        let e: SendError<N, R::Error> = SendError::ActorStopped;
        <ForwardedReply<M, R> as Reply>::downcast_err::<N>(e.boxed())
    }
    pub fn fwd_ok<M: Send + 'static, R: Reply>(v: R::Ok) -> R::Ok {
        <ForwardedReply<M, R> as Reply>::downcast_ok(Box::new(v))
    }

    // ---- C03 / C32 replies at their own types
    pub fn reply_rt_ok<T: Send + 'static, E: ReplyError>(v: T) -> T {
        <Result<T, E> as Reply>::downcast_ok(Box::new(v))
    }
    pub fn reply_rt_err<T: Send + 'static, E: ReplyError, M: Send + 'static>(e: SendError<M, E>) -> SendError<M, E> {
        <Result<T, E> as Reply>::downcast_err::<M>(e.boxed())
    }
    pub fn reply_rt_plain(v: String) -> String {
        <String as Reply>::downcast_ok(Box::new(v))
    }
    pub fn reply_rt_delegated<T: Send + 'static, E: ReplyError>(v: T) -> T {
        <DelegatedReply<Result<T, E>> as Reply>::downcast_ok(Box::new(v))
    }
    pub fn reply_rt_delegated_err<T: Send + 'static, E: ReplyError, M: Send + 'static>(e: SendError<M, E>) -> SendError<M, E> {
        <DelegatedReply<Result<T, E>> as Reply>::downcast_err::<M>(e.boxed())
    }
    pub fn sender_send<R: Reply>(tx: ReplySender<R>, v: R) {
        tx.send(v)
    }
    pub fn sender_send_result<T: Send + 'static, E: ReplyError>(tx: ReplySender<Result<T, E>>, v: Result<T, E>) {
        tx.send(v)
    }
    pub fn sender_boxed<R: Reply>(tx: ReplySender<R>) -> BoxReplySender {
        tx.boxed()
    }
    pub fn ctx_reply_sender<B: Actor, R: Reply>(ctx: &mut Context<B, R>) -> Option<ReplySender<R::Value>> {
        ctx.reply_sender().1
    }
    pub fn ctx_reply<B: Actor, R: Reply>(ctx: &mut Context<B, R>, v: R::Value) {
        ctx.reply(v);
    }
    pub fn ctx_ref<B: Actor, R: Reply>(ctx: &Context<B, R>) -> ActorRef<B> {
        ctx.actor_ref()
    }
    // ---- C18 one handled message
    pub async fn handle_msg<A: Actor + Message<M>, M: Send + 'static>(state: &mut A, m: M, r: ActorRef<A>, tx: Option<BoxReplySender>) -> Result<(), Box<dyn ReplyError>> {
        (Box::new(m) as BoxMessage<A>).handle_dyn(state, r, tx).await
    }
    pub fn msg_as_any<A: Actor + Message<M>, M: Send + 'static>(m: M) -> M {
        *(Box::new(m) as BoxMessage<A>).as_any().downcast::<M>().unwrap()
    }

    // ---- C30 conversions
    pub fn se_map_msg<M, N, E, F: FnMut(M) -> N>(e: SendError<M, E>, f: F) -> SendError<N, E> {
        e.map_msg(f)
    }
    pub fn se_map_err<M, E, O, F: FnMut(E) -> O>(e: SendError<M, E>, f: F) -> SendError<M, O> {
        e.map_err(f)
    }
    pub fn se_flatten<M, E>(e: SendError<M, SendError<M, E>>) -> SendError<M, E> {
        e.flatten()
    }
    pub fn se_roundtrip<M: Send + 'static, E: Send + 'static>(e: SendError<M, E>) -> Result<SendError<M, E>, BoxSendError> {
        e.boxed().try_downcast::<M, E>()
    }
    pub fn se_roundtrip_strict<M: Send + 'static, E: Send + 'static>(e: SendError<M, E>) -> SendError<M, E> {
        e.boxed().downcast::<M, E>()
    }
    pub fn se_wrong_type<M: Send + 'static, E: Send + 'static>(e: SendError<M, E>) -> Result<SendError<(M, M), (E, E)>, BoxSendError> {
        e.boxed().try_downcast::<(M, M), (E, E)>()
    }
    pub fn se_unwrap_msg<M, E>(e: SendError<M, E>) -> M {
        e.unwrap_msg()
    }
    pub fn se_unwrap_err<M, E>(e: SendError<M, E>) -> E {
        e.unwrap_err()
    }
    pub fn re_map_err<E, O, F: FnMut(E) -> O>(e: RemoteSendError<E>, f: F) -> RemoteSendError<O> {
        e.map_err(f)
    }
    pub fn re_flatten<E>(e: RemoteSendError<RemoteSendError<E>>) -> RemoteSendError<E> {
        e.flatten()
    }
    pub fn re_from<M, E>(e: SendError<M, E>) -> RemoteSendError<E> {
        e.into()
    }
    pub fn se_from_recv<M, E>(e: tokio::sync::oneshot::error::RecvError) -> SendError<M, E> {
        e.into()
    }
    pub fn se_from_elapsed<M, E>(e: tokio::time::error::Elapsed) -> SendError<M, E> {
        e.into()
    }
    pub fn se_from_send<A: Actor + Message<M>, M: Send + 'static, E>(m: M, r: ActorRef<A>, k: u8) -> SendError<M, E> {
        let s = Signal::Message { message: Box::new(m), actor_ref: r, reply: None, sent_within_actor: false };
        match k {
            0 => tokio::sync::mpsc::error::SendError(s).into(),
            1 => tokio::sync::mpsc::error::TrySendError::Full(s).into(),
            2 => tokio::sync::mpsc::error::TrySendError::Closed(s).into(),
            3 => tokio::sync::mpsc::error::SendTimeoutError::Timeout(s).into(),
            _ => tokio::sync::mpsc::error::SendTimeoutError::Closed(s).into(),
        }
    }
    // ---- C31 panic errors
    pub fn pe_with<R, F: FnOnce(&Box<dyn ReplyError>) -> R>(e: &PanicError, f: F) -> R {
        e.with(f)
    }
    pub fn pe_downcast_ref<T: ReplyError, R, F: FnOnce(&T) -> R>(e: &PanicError, f: F) -> Option<R> {
        e.with_downcast_ref(f)
    }
    pub fn pe_own_type<T: ReplyError, R, F: FnOnce(&T) -> R>(v: T, f: F) -> Option<R> {
        PanicError::new(Box::new(v)).with_downcast_ref(f)
    }
    pub fn pe_other_type<T: ReplyError, R, F: FnOnce(&(T, T)) -> R>(v: T, f: F) -> Option<R> {
        PanicError::new(Box::new(v)).with_downcast_ref(f)
    }
    pub fn pe_clone_type<T: ReplyError + Clone>(v: T) -> Option<T> {
        PanicError::new(Box::new(v)).downcast::<T>()
    }
    pub fn pe_panic_str<R, F: FnOnce(&str) -> R>(v: &'static str, f: F) -> Option<R> {
        PanicError::new_from_panic_any(Box::new(v)).with_str(f)
    }
    pub fn pe_panic_string<R, F: FnOnce(&str) -> R>(v: String, f: F) -> Option<R> {
        PanicError::new_from_panic_any(Box::new(v)).with_str(f)
    }
    pub fn pe_error_string<R, F: FnOnce(&str) -> R>(v: String, f: F) -> Option<R> {
        PanicError::new(Box::new(v)).with_str(f)
    }
    pub fn pe_panic_other<T: Send + 'static, R, F: FnOnce(&Box<dyn std::any::Any + Send>) -> R>(v: T, f: F) -> Option<R> {
        PanicError::new_from_panic_any(Box::new(v)).with_downcast_ref(f)
    }
    pub fn pe_other_str<T: Send + 'static, R, F: FnOnce(&str) -> R>(v: T, f: F) -> Option<R> {
        PanicError::new_from_panic_any(Box::new(v)).with_str(f)
    }
    pub fn pe_clone(v: &PanicError) -> PanicError {
        v.clone()
    }
    pub fn hook_invoke(e: &PanicError) {
        invoke_actor_error_hook(e)
    }
    pub fn hook_set(h: fn(&PanicError)) {
        set_actor_error_hook(h)
    }

    // ---- lifecycle
    pub async fn life_run<A: Actor>(actor: A, mb: (MailboxSender<A>, MailboxReceiver<A>)) -> (A, ActorStopReason) {
        PreparedActor::new(mb).run(actor).await
    }

    // ---- waits and stopping
    pub async fn w_startup<A: Actor>(r: &ActorRef<A>) { r.wait_for_startup().await }
    #[allow(deprecated)]
    pub async fn w_startup_old<A: Actor>(r: &ActorRef<A>) { r.wait_startup().await }
    pub async fn w_startup_res<A: Actor>(r: &ActorRef<A>) -> Result<(), A::Error> where A::Error: Clone { r.wait_for_startup_result().await }
    #[allow(deprecated)]
    pub async fn w_startup_res_old<A: Actor>(r: &ActorRef<A>) -> Result<(), A::Error> where A::Error: Clone { r.wait_startup_result().await }
    pub async fn w_startup_rec<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) {
        let rec: Recipient<M> = r.recipient();
        rec.wait_for_startup().await
    }
    pub async fn w_shutdown<A: Actor>(r: &ActorRef<A>) { r.wait_for_shutdown().await }
    #[allow(deprecated)]
    pub async fn w_shutdown_old<A: Actor>(r: &ActorRef<A>) { r.wait_for_stop().await }
    pub async fn w_shutdown_res<A: Actor>(r: &ActorRef<A>) -> Result<(), A::Error> where A::Error: Clone { r.wait_for_shutdown_result().await }
    pub async fn w_shutdown_rec<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) {
        let rec: Recipient<M> = r.recipient();
        rec.wait_for_shutdown().await
    }
    pub fn w_alive<A: Actor>(r: &ActorRef<A>) -> bool { r.is_alive() }
    pub fn w_alive_rec<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> bool {
        let rec: Recipient<M> = r.recipient();
        rec.is_alive()
    }
    pub async fn w_stop<A: Actor>(r: &ActorRef<A>) -> Result<(), SendError> { r.stop_gracefully().await }
    pub async fn w_stop_rec<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> Result<(), SendError> {
        let rec: Recipient<M> = r.recipient();
        rec.stop_gracefully().await
    }
    pub fn w_kill<A: Actor>(r: &ActorRef<A>) { r.kill() }
    pub fn w_kill_rec<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) {
        let rec: Recipient<M> = r.recipient();
        rec.kill()
    }

    // ---- references
    pub fn ref_clone<A: Actor>(r: &ActorRef<A>) -> ActorRef<A> { r.clone() }
    pub fn ref_down<A: Actor>(r: &ActorRef<A>) -> WeakActorRef<A> { r.downgrade() }
    pub fn ref_up<A: Actor>(r: &WeakActorRef<A>) -> Option<ActorRef<A>> { r.upgrade() }
    pub fn ref_down_up<A: Actor>(r: &ActorRef<A>) -> Option<ActorRef<A>> { r.downgrade().upgrade() }
    pub fn ref_up_down<A: Actor>(r: &WeakActorRef<A>) -> Option<WeakActorRef<A>> { r.upgrade().map(|r| r.downgrade()) }
    pub fn ref_wclone<A: Actor>(r: &WeakActorRef<A>) -> WeakActorRef<A> { r.clone() }
    pub fn ref_id<A: Actor>(r: &ActorRef<A>) -> ActorID { r.id() }
    pub fn ref_wid<A: Actor>(r: &WeakActorRef<A>) -> ActorID { r.id() }
    pub fn ref_strong<A: Actor>(r: &ActorRef<A>) -> usize { r.strong_count() }
    pub fn ref_weak<A: Actor>(r: &ActorRef<A>) -> usize { r.weak_count() }
    pub fn ref_wstrong<A: Actor>(r: &WeakActorRef<A>) -> usize { r.strong_count() }
    pub fn ref_wweak<A: Actor>(r: &WeakActorRef<A>) -> usize { r.weak_count() }
    pub fn rem_clone<A: Actor + crate::remote::RemoteActor>(r: &RemoteActorRef<A>) -> RemoteActorRef<A> { r.clone() }
    pub fn rem_id<A: Actor + crate::remote::RemoteActor>(r: &RemoteActorRef<A>) -> ActorID { r.id() }
    pub fn ref_cur<A: Actor>(r: &ActorRef<A>) -> bool { r.is_current() }
    pub fn rec_new<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> Recipient<M> { r.recipient() }
    pub fn rec_clone<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> Recipient<M> {
        let rec: Recipient<M> = r.recipient();
        rec.clone()
    }
    pub fn rec_down<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> WeakRecipient<M> {
        let rec: Recipient<M> = r.recipient();
        rec.downgrade()
    }
    pub fn rec_down_up<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> (Option<Recipient<M>>, Recipient<M>) {
        let rec: Recipient<M> = r.recipient();
        (rec.downgrade().upgrade(), rec)
    }
    pub fn rec_wup<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> Option<Recipient<M>> {
        let rec: Recipient<M> = r.recipient();
        let w = rec.downgrade().clone();
        drop(rec);
        w.upgrade()
    }
    pub fn rec_id<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> (ActorID, ActorID) {
        let rec: Recipient<M> = r.recipient();
        (rec.id(), rec.downgrade().id())
    }
    pub fn rec_strong<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> usize {
        let rec: Recipient<M> = r.recipient();
        rec.strong_count()
    }
    pub fn rec_weak<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> usize {
        let rec: Recipient<M> = r.recipient();
        rec.weak_count()
    }
    pub fn rec_wstrong<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> usize {
        let rec: Recipient<M> = r.recipient();
        rec.downgrade().strong_count()
    }
    pub fn rec_wweak<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> usize {
        let rec: Recipient<M> = r.recipient();
        rec.downgrade().weak_count()
    }
    pub fn rec_cur<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> bool {
        let rec: Recipient<M> = r.recipient();
        rec.is_current()
    }

    // ---- recipients against references
    pub fn pa_id<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> ActorID { r.id() }
    pub fn pr_id<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> ActorID { let r: Recipient<M> = r.recipient(); r.id() }
    pub fn pa_alive<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> bool { r.is_alive() }
    pub fn pr_alive<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> bool { let r: Recipient<M> = r.recipient(); r.is_alive() }
    pub fn pa_strong<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> usize { r.strong_count() }
    pub fn pr_strong<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> usize { let r: Recipient<M> = r.recipient(); r.strong_count() }
    pub fn pa_weak<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> usize { r.weak_count() }
    pub fn pr_weak<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> usize { let r: Recipient<M> = r.recipient(); r.weak_count() }
    pub fn pa_current<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> bool { r.is_current() }
    pub fn pr_current<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> bool { let r: Recipient<M> = r.recipient(); r.is_current() }
    pub fn pa_kill<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> () { r.kill() }
    pub fn pr_kill<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> () { let r: Recipient<M> = r.recipient(); r.kill() }
    pub async fn pa_stop<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> Result<(), SendError> { r.stop_gracefully().await }
    pub async fn pr_stop<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> Result<(), SendError> { let r: Recipient<M> = r.recipient(); r.stop_gracefully().await }
    pub async fn pa_startup<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> () { r.wait_for_startup().await }
    pub async fn pr_startup<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> () { let r: Recipient<M> = r.recipient(); r.wait_for_startup().await }
    pub async fn pa_shutdown<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> () { r.wait_for_shutdown().await }
    pub async fn pr_shutdown<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> () { let r: Recipient<M> = r.recipient(); r.wait_for_shutdown().await }
    pub async fn pa_tell<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>, m: M) -> Result<(), SendError<M>> { r.tell(m).await }
    pub async fn pr_tell<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>, m: M) -> Result<(), SendError<M>> { let r: Recipient<M> = r.recipient(); r.tell(m).await }
    pub async fn pa_tell_mt<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>, m: M, d: std::time::Duration) -> Result<(), SendError<M>> { r.tell(m).mailbox_timeout(d).await }
    pub async fn pr_tell_mt<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>, m: M, d: std::time::Duration) -> Result<(), SendError<M>> { let r: Recipient<M> = r.recipient(); r.tell(m).mailbox_timeout(d).await }
    pub fn pa_tell_try<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>, m: M) -> Result<(), SendError<M>> { r.tell(m).try_send() }
    pub fn pr_tell_try<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>, m: M) -> Result<(), SendError<M>> { let r: Recipient<M> = r.recipient(); r.tell(m).try_send() }
    pub fn pa_tell_blocking<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>, m: M) -> Result<(), SendError<M>> { r.tell(m).blocking_send() }
    pub fn pr_tell_blocking<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>, m: M) -> Result<(), SendError<M>> { let r: Recipient<M> = r.recipient(); r.tell(m).blocking_send() }
    pub fn pa_clone<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> ActorRef<A> { r.clone() }
    pub fn pr_clone<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> Recipient<M> { let r: Recipient<M> = r.recipient(); r.clone() }
    pub fn pa_clone_kill<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> () { r.clone().kill() }
    pub fn pr_clone_kill<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> () { let r: Recipient<M> = r.recipient(); r.clone().kill() }
    pub fn pa_down<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> WeakActorRef<A> { r.downgrade() }
    pub fn pr_down<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> WeakRecipient<M> { let r: Recipient<M> = r.recipient(); r.downgrade() }
    pub fn pa_wid<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> ActorID { r.downgrade().id() }
    pub fn pr_wid<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> ActorID { let r: Recipient<M> = r.recipient(); r.downgrade().id() }
    pub fn pa_wstrong<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> usize { r.downgrade().strong_count() }
    pub fn pr_wstrong<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> usize { let r: Recipient<M> = r.recipient(); r.downgrade().strong_count() }
    pub fn pa_wweak<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> usize { r.downgrade().weak_count() }
    pub fn pr_wweak<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> usize { let r: Recipient<M> = r.recipient(); r.downgrade().weak_count() }
    pub fn pa_wup<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> Option<ActorRef<A>> { { let w = r.downgrade(); drop(r); w.upgrade() } }
    pub fn pr_wup<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> Option<Recipient<M>> { let r: Recipient<M> = r.recipient(); { let w = r.downgrade(); drop(r); w.upgrade() } }
    pub fn pa_wclone_up<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> Option<ActorRef<A>> { { let w = r.downgrade().clone(); drop(r); w.upgrade() } }
    pub fn pr_wclone_up<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>) -> Option<Recipient<M>> { let r: Recipient<M> = r.recipient(); { let w = r.downgrade().clone(); drop(r); w.upgrade() } }
    pub async fn pa_wup_tell<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>, m: M) -> Option<Result<(), SendError<M>>> { { let w = r.downgrade(); drop(r); match w.upgrade() { Some(r) => Some(r.tell(m).await), None => None } } }
    pub async fn pr_wup_tell<A: Actor + Message<M>, M: Send + 'static>(r: ActorRef<A>, m: M) -> Option<Result<(), SendError<M>>> { let r: Recipient<M> = r.recipient(); { let w = r.downgrade(); drop(r); match w.upgrade() { Some(r) => Some(r.tell(m).await), None => None } } }

    // ---- links
    pub async fn l_link<A: Actor, B: Actor>(a: &ActorRef<A>, b: &ActorRef<B>) { a.link(b).await }
    pub async fn l_unlink<A: Actor, B: Actor>(a: &ActorRef<A>, b: &ActorRef<B>) { a.unlink(b).await }
    pub fn l_blink<A: Actor, B: Actor>(a: &ActorRef<A>, b: &ActorRef<B>) { a.blocking_link(b) }
    pub fn l_bunlink<A: Actor, B: Actor>(a: &ActorRef<A>, b: &ActorRef<B>) { a.blocking_unlink(b) }
    pub async fn lr_link<A: Actor + crate::remote::RemoteActor, B: Actor + crate::remote::RemoteActor>(r: &ActorRef<A>, s: &RemoteActorRef<B>) -> Result<(), RemoteSendError<Infallible>> { r.link_remote(s).await }
    pub async fn lr_unlink<A: Actor + crate::remote::RemoteActor, B: Actor + crate::remote::RemoteActor>(r: &ActorRef<A>, s: &RemoteActorRef<B>) -> Result<(), RemoteSendError<Infallible>> { r.unlink_remote(s).await }
    pub async fn lrr_link<A: Actor + crate::remote::RemoteActor, B: Actor + crate::remote::RemoteActor>(r: &RemoteActorRef<A>, s: &RemoteActorRef<B>) -> Result<(), RemoteSendError<Infallible>> { r.link_remote(s).await }
    pub async fn lrr_unlink<A: Actor + crate::remote::RemoteActor, B: Actor + crate::remote::RemoteActor>(r: &RemoteActorRef<A>, s: &RemoteActorRef<B>) -> Result<(), RemoteSendError<Infallible>> { r.unlink_remote(s).await }
    pub async fn l_died<A: Actor>(m: MailboxSender<A>, id: ActorID, reason: ActorStopReason) -> Result<(), SendError> { m.signal_link_died(id, reason).await }
    pub async fn l_died_weak<A: Actor>(m: WeakMailboxSender<A>, id: ActorID, reason: ActorStopReason) -> Result<(), SendError> { m.signal_link_died(id, reason).await }

    pub fn s_startup<A: Actor>(m: MailboxSender<A>) -> Result<(), SendError> { m.signal_startup_finished() }
    pub fn s_startup_weak<A: Actor>(m: WeakMailboxSender<A>) -> Result<(), SendError> { m.signal_startup_finished() }
    pub async fn s_stop<A: Actor>(m: MailboxSender<A>) -> Result<(), SendError> { m.signal_stop().await }
    pub async fn s_stop_weak<A: Actor>(m: WeakMailboxSender<A>) -> Result<(), SendError> { m.signal_stop().await }
    pub fn mb_clone<A: Actor>(m: &MailboxSender<A>) -> MailboxSender<A> { m.clone() }
    pub fn mb_wclone<A: Actor>(m: &WeakMailboxSender<A>) -> WeakMailboxSender<A> { m.clone() }
    pub fn mb_bounded<A: Actor>(n: usize) -> (MailboxSender<A>, MailboxReceiver<A>) { crate::mailbox::bounded(n) }
    pub fn mb_unbounded<A: Actor>() -> (MailboxSender<A>, MailboxReceiver<A>) { crate::mailbox::unbounded() }

    // ---- spawning
    pub fn sp_spawn<A: Actor>(actor: A) -> ActorRef<A> { crate::spawn(actor) }
    pub fn sp_mailbox<A: Actor>(actor: A, mb: (MailboxSender<A>, MailboxReceiver<A>)) -> ActorRef<A> { spawn_with_mailbox(actor, mb) }
    pub async fn sp_link<A: Actor, L: Actor>(actor: A, l: &ActorRef<L>) -> ActorRef<A> { spawn_link(l, actor).await }
    pub async fn sp_link_mailbox<A: Actor, L: Actor>(actor: A, mb: (MailboxSender<A>, MailboxReceiver<A>), l: &ActorRef<L>) -> ActorRef<A> { spawn_link_with_mailbox(l, actor, mb).await }
    pub fn sp_thread<A: Actor>(actor: A) -> ActorRef<A> { spawn_in_thread(actor) }
    pub fn sp_thread_mailbox<A: Actor>(actor: A, mb: (MailboxSender<A>, MailboxReceiver<A>)) -> ActorRef<A> { spawn_in_thread_with_mailbox(actor, mb) }
    pub fn sp_prepared<A: Actor>(actor: A, mb: (MailboxSender<A>, MailboxReceiver<A>)) -> ActorRef<A> {
        let p = PreparedActor::new(mb);
        let r = p.actor_ref().clone();
        p.spawn(actor);
        r
    }
    pub fn sp_prepared_thread<A: Actor>(actor: A, mb: (MailboxSender<A>, MailboxReceiver<A>)) -> ActorRef<A> {
        let p = PreparedActor::new(mb);
        let r = p.actor_ref().clone();
        p.spawn_in_thread(actor);
        r
    }

    pub fn at_stream<A: Actor + Message<StreamMessage<M, T, F>>, M: Send + 'static, S: futures::Stream<Item = M> + Send + Unpin + 'static, T: Send + 'static, F: Send + 'static>(r: &ActorRef<A>, s: S, t: T, f: F) -> tokio::task::JoinHandle<Result<S, SendError<StreamMessage<M, T, F>>>> { r.attach_stream(s, t, f) }

    // ---- provided hooks
    pub struct Plain;
    impl Actor for Plain {
        type Error = Infallible;
        fn name() -> &'static str { "Plain" }
    }
    pub async fn d_start(a: &mut Plain, r: ActorRef<Plain>) -> Result<(), Infallible> { a.on_start(r).await }
    pub async fn d_message(a: &mut Plain, m: BoxMessage<Plain>, r: ActorRef<Plain>, tx: Option<BoxReplySender>) -> Result<(), Box<dyn ReplyError>> { a.on_message(m, r, tx).await }
    pub async fn d_panic(a: &mut Plain, r: WeakActorRef<Plain>, e: PanicError) -> Result<std::ops::ControlFlow<ActorStopReason>, Infallible> { a.on_panic(r, e).await }
    pub async fn d_link(a: &mut Plain, r: WeakActorRef<Plain>, id: ActorID, e: ActorStopReason) -> Result<std::ops::ControlFlow<ActorStopReason>, Infallible> { a.on_link_died(r, id, e).await }
    pub async fn d_stop(a: &mut Plain, r: WeakActorRef<Plain>, e: ActorStopReason) -> Result<(), Infallible> { a.on_stop(r, e).await }
    pub async fn d_next(a: &mut Plain, r: WeakActorRef<Plain>, rx: &mut MailboxReceiver<Plain>) -> Option<Signal<Plain>> { a.next(r, rx).await }

    // ---- C28 identifiers
    pub fn id_round(id: &ActorID) -> Result<(bool, u64, Option<libp2p::PeerId>, u64, Option<libp2p::PeerId>), ActorIDFromBytesError> {
        let back = ActorID::from_bytes(&id.to_bytes())?;
        Ok((back == *id, back.sequence_id(), back.peer_id().copied(), id.sequence_id(), id.peer_id().copied()))
    }
    pub fn id_decode(b: &[u8]) -> Result<(u64, Option<libp2p::PeerId>), ActorIDFromBytesError> {
        let id = ActorID::from_bytes(b)?;
        Ok((id.sequence_id(), id.peer_id().copied()))
    }
    pub fn id_eq(a: &ActorID, b: &ActorID) -> (bool, u64, u64, Option<libp2p::PeerId>, Option<libp2p::PeerId>) {
        (*a == *b, a.sequence_id(), b.sequence_id(), a.peer_id().copied(), b.peer_id().copied())
    }
    pub fn id_hash<H: std::hash::Hasher>(a: &ActorID, h: &mut H) -> (u64, Option<libp2p::PeerId>) {
        std::hash::Hash::hash(a, h);
        (a.sequence_id(), a.peer_id().copied())
    }
    pub fn id_ser<S: serde::Serializer>(a: &ActorID, s: S) -> (Result<S::Ok, S::Error>, Vec<u8>, Option<libp2p::PeerId>) { (serde::Serialize::serialize(a, s), a.to_bytes(), a.peer_id().copied()) }
    pub fn id_de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<(u64, Option<libp2p::PeerId>), D::Error> {
        let id: ActorID = serde::Deserialize::deserialize(d)?;
        Ok((id.sequence_id(), id.peer_id().copied()))
    }
    pub fn id_new(n: u64) -> (u64, Option<libp2p::PeerId>) { let a = ActorID::new(n); (a.sequence_id(), a.peer_id().copied()) }
    pub fn id_new_peer(n: u64, p: libp2p::PeerId) -> (u64, Option<libp2p::PeerId>) { let a = ActorID::new_with_peer_id(n, p); (a.sequence_id(), a.peer_id().copied()) }

    // ---- the swarm
    use crate::remote::{ActorSwarm, ActorSwarmEvent, ActorSwarmHandler, SwarmBehaviour, SwarmCommand};
    use libp2p::{PeerId, Swarm};
    pub fn sw_cmd<B: SwarmBehaviour>(p: PeerId, s: &mut Swarm<B>, c: SwarmCommand) -> Option<ActorSwarmHandler> {
        let (_, mut h) = ActorSwarm::bootstrap_manual(p)?;
        h.handle_command(s, c);
        Some(h)
    }
    pub fn sw_event<B: SwarmBehaviour>(p: PeerId, s: &mut Swarm<B>, e: ActorSwarmEvent) -> Option<ActorSwarmHandler> {
        let (_, mut h) = ActorSwarm::bootstrap_manual(p)?;
        h.handle_event(s, e);
        Some(h)
    }
    pub fn sw_answers<B: SwarmBehaviour>(p: PeerId, s: &mut Swarm<B>, c: SwarmCommand, d: SwarmCommand, e: ActorSwarmEvent, f: ActorSwarmEvent) -> Option<ActorSwarmHandler> {
        let (_, mut h) = ActorSwarm::bootstrap_manual(p)?;
        h.handle_command(s, c);
        h.handle_command(s, d);
        h.handle_event(s, e);
        h.handle_event(s, f);
        Some(h)
    }
    pub async fn sa_listen(s: &ActorSwarm, a: libp2p::Multiaddr) -> Result<libp2p::core::transport::ListenerId, libp2p::TransportError<std::io::Error>> { s.listen_on(a).await }
    pub async fn sa_dial(s: &ActorSwarm, o: libp2p::swarm::dial_opts::DialOpts) -> Result<(), libp2p::swarm::DialError> { s.dial(o).await }
    pub fn sa_add(s: &ActorSwarm, p: PeerId, a: libp2p::Multiaddr) { s.add_peer_address(p, a) }
    pub fn sa_disconnect(s: &ActorSwarm, p: PeerId) { s.disconnect_peer_id(p) }
    pub async fn sa_unregister(s: &ActorSwarm, n: String) -> Result<(), RegistryError> { s.unregister(n).await }
    pub async fn sa_lookup<A: Actor + crate::remote::RemoteActor>(n: &str) -> Result<Option<RemoteActorRef<A>>, RegistryError> { RemoteActorRef::<A>::lookup(n).await }
    pub async fn sa_lookup_local<A: Actor + crate::remote::RemoteActor>(n: &str) -> Result<Option<ActorRef<A>>, RegistryError> { ActorRef::<A>::lookup(n).await }
    pub async fn sa_register<A: Actor + crate::remote::RemoteActor>(r: &ActorRef<A>, n: &str) -> Result<(), RegistryError> { r.register(n).await }
    pub fn sa_run(s: Swarm<crate::remote::ActorSwarmBehaviour>) -> bool { ActorSwarm::bootstrap_with_swarm(s).is_ok() }

    pub async fn ss_signal(s: &ActorSwarm, dead: ActorID, to: ActorID, rid: std::borrow::Cow<'static, str>, why: ActorStopReason) -> Result<(), RemoteSendError<Infallible>> { s.signal_link_died(dead, to, rid, why).await }

    // ---- requests to remote actors
    use crate::remote::{RemoteActor, RemoteMessage};
    pub async fn rk_ask<A: Actor + RemoteActor + Message<M> + RemoteMessage<M>, M: serde::Serialize + Send + 'static>(r: &RemoteActorRef<A>, m: &M, mt: Duration, rt: Duration) -> Result<<A::Reply as Reply>::Ok, RemoteSendError<<A::Reply as Reply>::Error>>
    where <A::Reply as Reply>::Ok: serde::de::DeserializeOwned, <A::Reply as Reply>::Error: serde::de::DeserializeOwned { r.ask(m).mailbox_timeout(mt).reply_timeout(rt).send().await }
    pub async fn rk_ask_rev<A: Actor + RemoteActor + Message<M> + RemoteMessage<M>, M: serde::Serialize + Send + 'static>(r: &RemoteActorRef<A>, m: &M, mt: Duration, rt: Duration) -> Result<<A::Reply as Reply>::Ok, RemoteSendError<<A::Reply as Reply>::Error>>
    where <A::Reply as Reply>::Ok: serde::de::DeserializeOwned, <A::Reply as Reply>::Error: serde::de::DeserializeOwned { r.ask(m).reply_timeout(rt).mailbox_timeout(mt).send().await }
    pub async fn rk_ask_plain<A: Actor + RemoteActor + Message<M> + RemoteMessage<M>, M: serde::Serialize + Send + 'static>(r: &RemoteActorRef<A>, m: &M) -> Result<<A::Reply as Reply>::Ok, RemoteSendError<<A::Reply as Reply>::Error>>
    where <A::Reply as Reply>::Ok: serde::de::DeserializeOwned, <A::Reply as Reply>::Error: serde::de::DeserializeOwned { r.ask(m).send().await }
    pub async fn rk_ask_into<A: Actor + RemoteActor + Message<M> + RemoteMessage<M>, M: serde::Serialize + Send + Sync + 'static>(r: &RemoteActorRef<A>, m: &M, mt: Duration, rt: Duration) -> Result<<A::Reply as Reply>::Ok, RemoteSendError<<A::Reply as Reply>::Error>>
    where <A::Reply as Reply>::Ok: serde::de::DeserializeOwned, <A::Reply as Reply>::Error: serde::de::DeserializeOwned { r.ask(m).mailbox_timeout(mt).reply_timeout(rt).await }
    pub async fn rk_try_ask<A: Actor + RemoteActor + Message<M> + RemoteMessage<M>, M: serde::Serialize + Send + 'static>(r: &RemoteActorRef<A>, m: &M, rt: Duration) -> Result<<A::Reply as Reply>::Ok, RemoteSendError<<A::Reply as Reply>::Error>>
    where <A::Reply as Reply>::Ok: serde::de::DeserializeOwned, <A::Reply as Reply>::Error: serde::de::DeserializeOwned { r.ask(m).reply_timeout(rt).try_send().await }
    pub async fn rk_try_ask_plain<A: Actor + RemoteActor + Message<M> + RemoteMessage<M>, M: serde::Serialize + Send + 'static>(r: &RemoteActorRef<A>, m: &M) -> Result<<A::Reply as Reply>::Ok, RemoteSendError<<A::Reply as Reply>::Error>>
    where <A::Reply as Reply>::Ok: serde::de::DeserializeOwned, <A::Reply as Reply>::Error: serde::de::DeserializeOwned { r.ask(m).try_send().await }
    pub async fn rk_tell<A: Actor + RemoteActor + Message<M> + RemoteMessage<M>, M: serde::Serialize + Send + 'static>(r: &RemoteActorRef<A>, m: &M, mt: Duration) -> Result<(), RemoteSendError> { r.tell(m).mailbox_timeout(mt).send().await }
    pub async fn rk_tell_plain<A: Actor + RemoteActor + Message<M> + RemoteMessage<M>, M: serde::Serialize + Send + 'static>(r: &RemoteActorRef<A>, m: &M) -> Result<(), RemoteSendError> { r.tell(m).send().await }
    pub async fn rk_tell_into<A: Actor + RemoteActor + Message<M> + RemoteMessage<M>, M: serde::Serialize + Send + Sync + 'static>(r: &RemoteActorRef<A>, m: &M, mt: Duration) -> Result<(), RemoteSendError> { r.tell(m).mailbox_timeout(mt).await }
    pub async fn rk_try_tell<A: Actor + RemoteActor + Message<M> + RemoteMessage<M>, M: serde::Serialize + Send + 'static>(r: &RemoteActorRef<A>, m: &M) -> Result<(), RemoteSendError> { r.tell(m).try_send().await }
}
