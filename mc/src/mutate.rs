//! All single-place changes of a tree or of a list of lines.

use crate::sx::X;

/// (path to the list, length of that list) for every list in the tree
pub fn lists(x: &X) -> Vec<(Vec<usize>, usize)> {
    let mut out = vec![];
    fn go(x: &X, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, usize)>) {
        if let X::L(v) = x {
            out.push((path.clone(), v.len()));
            for (i, y) in v.iter().enumerate() {
                path.push(i);
                go(y, path, out);
                path.pop();
            }
        }
    }
    go(x, &mut vec![], &mut out);
    out
}

pub fn get<'a>(x: &'a X, path: &[usize]) -> &'a X {
    match path.split_first() {
        None => x,
        Some((i, rest)) => match x {
            X::L(v) => get(&v[*i], rest),
            X::A(_) => x,
        },
    }
}

/// the tree with the list at `path` edited by `f`
pub fn edit(x: &X, path: &[usize], f: &dyn Fn(&mut Vec<X>)) -> X {
    let mut y = x.clone();
    {
        let mut z = &mut y;
        for i in path {
            z = match z {
                X::L(v) => &mut v[*i],
                X::A(_) => unreachable!(),
            }
        }
        if let X::L(v) = z {
            f(v)
        }
    }
    y
}

pub fn insert(x: &X, path: &[usize], at: usize, w: &X) -> X {
    edit(x, path, &|v| v.insert(at, w.clone()))
}
pub fn remove(x: &X, path: &[usize], at: usize) -> X {
    edit(x, path, &|v| {
        v.remove(at);
    })
}
pub fn replace(x: &X, path: &[usize], at: usize, w: &X) -> X {
    edit(x, path, &|v| v[at] = w.clone())
}
