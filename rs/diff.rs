//! Stand-in for the `diff` crate, which is not available offline: only used for the text of an error.
pub enum Result<T> {
    Left(T),
    Both(T, T),
    Right(T),
}
pub fn lines<'a>(left: &'a str, right: &'a str) -> Vec<Result<&'a str>> {
    let (l, r): (Vec<_>, Vec<_>) = (left.lines().collect(), right.lines().collect());
    let n = l.iter().zip(&r).take_while(|(a, b)| a == b).count();
    let mut o: Vec<_> = l[..n].iter().zip(&r[..n]).map(|(a, b)| Result::Both(*a, *b)).collect();
    o.extend(l[n..].iter().map(|x| Result::Left(*x)));
    o.extend(r[n..].iter().map(|x| Result::Right(*x)));
    o
}
