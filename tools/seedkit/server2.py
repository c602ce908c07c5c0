exec(open(K + '/server1.py').read())
SEEDS = [
 dict(id='c12-gone-with-bad-request', property='C12', needs='a connection that is gone when its request for a method that does not exist is handled', breaks='the task of the backend panics: nobody is served anymore',
  edits=[('derive/src/rpc/backend_impl.rs', '''                                let _ = sender
                                    .unbounded_send(#__private::Response::error(id, err))
                                    .ok();''', '''                                sender
                                    .unbounded_send(#__private::Response::error(id, err))
                                    .expect("the connection is open");''')],
  main=M+'''
    let p = proxy();
    let (tx, rx) = p.connect().split();
    let (tx2, mut rx2) = p.connect().split();
    send(&tx, call(1, "nothing", json!([])));
    drop((tx, rx));
    send(&tx2, call(2, "incr", json!([])));
    settle().await;
    let r = got(&mut rx2);
    assert_eq!(r.len(), 1, "{r:?}");
    assert_eq!(r[0]["method"]["data"], 1);
}'''),
]
