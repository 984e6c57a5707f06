// ---------------------------------------------------------------- more of the standard library (assumed), so that edits may use it
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) where T: core::marker::Destruct, ensures r == if a is Some { a } else { b };
pub assume_specification<T> [Option::<T>::xor] (a: Option<T>, b: Option<T>) -> (r: Option<T>) where T: core::marker::Destruct, ensures r == if a is Some && b is None { a } else if a is None && b is Some { b } else { None };
pub assume_specification<T, U, F: FnOnce(T) -> U + core::marker::Destruct> [Option::<T>::map_or::<U, F>] (a: Option<T>, d: U, f: F) -> (r: U) where U: core::marker::Destruct, requires a is Some ==> f.requires((a->Some_0,)), ensures a is None ==> r == d, a is Some ==> f.ensures((a->Some_0,), r);
pub assume_specification<T, U, D: FnOnce() -> U + core::marker::Destruct, F: FnOnce(T) -> U + core::marker::Destruct> [Option::<T>::map_or_else::<U, D, F>] (a: Option<T>, d: D, f: F) -> (r: U) requires a is Some ==> f.requires((a->Some_0,)), a is None ==> d.requires(()), ensures a is None ==> d.ensures((), r), a is Some ==> f.ensures((a->Some_0,), r);
pub assume_specification<T, F: FnOnce(T) -> bool + core::marker::Destruct> [Option::<T>::is_some_and] (a: Option<T>, f: F) -> (r: bool) requires a is Some ==> f.requires((a->Some_0,)), ensures a is None ==> !r, a is Some ==> f.ensures((a->Some_0,), r);
pub assume_specification<T, F: FnOnce(T) -> bool + core::marker::Destruct> [Option::<T>::is_none_or] (a: Option<T>, f: F) -> (r: bool) requires a is Some ==> f.requires((a->Some_0,)), ensures a is None ==> r, a is Some ==> f.ensures((a->Some_0,), r);
pub assume_specification<T, F: FnOnce(&T) -> bool + core::marker::Destruct> [Option::<T>::filter] (a: Option<T>, f: F) -> (r: Option<T>) where T: core::marker::Destruct, requires a is Some ==> f.requires((&a->Some_0,)), ensures r is Some ==> r == a && f.ensures((&a->Some_0,), true), r is None && a is Some ==> f.ensures((&a->Some_0,), false);
pub assume_specification<T, F: FnOnce() -> Option<T> + core::marker::Destruct> [Option::<T>::or_else] (a: Option<T>, f: F) -> (r: Option<T>) where T: core::marker::Destruct, requires a is None ==> f.requires(()), ensures a is Some ==> r == a, a is None ==> f.ensures((), r);
pub assume_specification<T, U> [Option::<T>::zip] (a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) where T: core::marker::Destruct, U: core::marker::Destruct, ensures r == if a is Some && b is Some { Some((a->Some_0, b->Some_0)) } else { None };
pub assume_specification<T, U> [Option::<T>::and] (a: Option<T>, b: Option<U>) -> (r: Option<U>) where T: core::marker::Destruct, U: core::marker::Destruct, ensures r == if a is Some { b } else { None };
pub assume_specification<T> [Option::<T>::replace] (a: &mut Option<T>, b: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E> + core::marker::Destruct> [Result::<T, E>::and_then] (a: Result<T, E>, f: F) -> (r: Result<U, E>) requires a is Ok ==> f.requires((a->Ok_0,)), ensures a is Ok ==> f.ensures((a->Ok_0,), r), a is Err ==> r is Err && r->Err_0 == a->Err_0;
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (a: Result<T, E>, d: T) -> (r: T) where T: core::marker::Destruct, E: core::marker::Destruct, ensures r == if a is Ok { a->Ok_0 } else { d };
pub assume_specification<T> [bool::then_some::<T>] (b: bool, t: T) -> (r: Option<T>) where T: core::marker::Destruct, ensures r == if b { Some(t) } else { None };
pub assume_specification<T: core::default::Default> [core::mem::take] (a: &mut T) -> (r: T) ensures r == *old(a), T::default.ensures((), *final(a));
pub assume_specification [str::eq_ignore_ascii_case] (s: &str, t: &str) -> (r: bool);
pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: String);
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c && *c <= '9');
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == (('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z'));
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == (('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z') || ('0' <= *c && *c <= '9'));
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == (*c as u32 <= 127);
pub assume_specification [char::is_alphanumeric] (c: char) -> (r: bool);
pub assume_specification [char::is_alphabetic] (c: char) -> (r: bool);
pub assume_specification [char::is_numeric] (c: char) -> (r: bool);
pub assume_specification [char::to_ascii_uppercase] (c: &char) -> (r: char);
pub assume_specification [char::to_ascii_lowercase] (c: &char) -> (r: char);
pub assume_specification [char::is_digit] (c: char, radix: u32) -> (r: bool) requires 2 <= radix <= 36;
pub assume_specification<T> [core::convert::identity] (a: T) -> (r: T) ensures r == a;
pub assume_specification<T: core::marker::Copy> [Option::<&T>::copied] (a: Option<&T>) -> (r: Option<T>) ensures r == match a { Some(x) => Some(*x), None => None };
pub assume_specification<T, E, F: FnOnce(E) -> T + core::marker::Destruct> [Result::<T, E>::unwrap_or_else] (a: Result<T, E>, f: F) -> (r: T) requires a is Err ==> f.requires((a->Err_0,)), ensures a is Ok ==> r == a->Ok_0, a is Err ==> f.ensures((a->Err_0,), r);
