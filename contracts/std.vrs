// ---- assumed contracts: std methods the verifier's library leaves out ------------------------------
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then::<U, F> ](r: Result<T, E>, f: F) -> (ret: Result<U, E>)
    requires r is Ok ==> f.requires((r->Ok_0,)),
    ensures match r { Ok(t) => f.ensures((t,), ret), Err(e) => ret == Err::<U, E>(e) };
pub assume_specification<T, E, G, F: FnOnce(E) -> Result<T, G>>[ Result::<T, E>::or_else::<G, F> ](r: Result<T, E>, f: F) -> (ret: Result<T, G>)
    requires r is Err ==> f.requires((r->Err_0,)),
    ensures match r { Ok(t) => ret == Ok::<T, G>(t), Err(e) => f.ensures((e,), ret) };
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](r: Result<T, E>, d: T) -> (ret: T)
    ensures ret == (match r { Ok(t) => t, Err(_) => d });
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else::<F> ](o: Option<T>, f: F) -> (ret: Option<T>)
    requires o is None ==> f.requires(()),
    ensures o is Some ==> ret == o, o is None ==> f.ensures((), ret);
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (ret: Option<T>)
    ensures ret == (if o is Some { o } else { p });
pub assume_specification<T, P: FnOnce(&T) -> bool>[ Option::<T>::filter::<P> ](o: Option<T>, p: P) -> (ret: Option<T>)
    requires o is Some ==> p.requires((&o->0,)),
    ensures
        ret is Some ==> ret == o && p.ensures((&o->0,), true),
        ret is None ==> o is None || p.ensures((&o->0,), false);
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or::<U, F> ](o: Option<T>, d: U, f: F) -> (ret: U)
    requires o is Some ==> f.requires((o->0,)),
    ensures o is Some ==> f.ensures((o->0,), ret), o is None ==> ret == d;
pub assume_specification<T, E>[ Option::<Result<T, E>>::transpose ](o: Option<Result<T, E>>) -> (ret: Result<Option<T>, E>)
    ensures ret == (match o { None => Ok::<Option<T>, E>(None), Some(Ok(t)) => Ok(Some(t)), Some(Err(e)) => Err(e) });
pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (ret: Option<T>)
    ensures ret == (match o { Some(t) => Some(*t), None => None });
pub assume_specification<T, U>[ Option::<T>::and ](o: Option<T>, p: Option<U>) -> (ret: Option<U>)
    ensures ret == (if o is Some { p } else { None });
pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, p: Option<U>) -> (ret: Option<(T, U)>)
    ensures ret == (if o is Some && p is Some { Some((o->0, p->0)) } else { None });
pub assume_specification<T>[ Option::<Option<T>>::flatten ](o: Option<Option<T>>) -> (ret: Option<T>)
    ensures ret == (match o { Some(t) => t, None => None });
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, t: T) -> (ret: Option<T>)
    ensures ret == *old(o), *final(o) == Some(t);
pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else::<F> ](r: Result<T, E>, f: F) -> (ret: T)
    requires r is Err ==> f.requires((r->Err_0,)),
    ensures match r { Ok(t) => ret == t, Err(e) => f.ensures((e,), ret) };
pub assume_specification<T>[ bool::then_some::<T> ](b: bool, t: T) -> (ret: Option<T>)
    ensures ret == (if b { Some(t) } else { None });
pub assume_specification<T>[ core::mem::replace::<T> ](dest: &mut T, src: T) -> (ret: T)
    ensures ret == *old(dest), *final(dest) == src;
