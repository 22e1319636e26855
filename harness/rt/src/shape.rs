//! Canonical text of what a getter returns.
use crate::walk::Walk;
pub trait Shape {
    fn shape(&self, o: &mut String);
}
impl<T: Walk> Shape for &T {
    fn shape(&self, o: &mut String) {
        self.walk(o)
    }
}
impl<T: Shape> Shape for Option<T> {
    fn shape(&self, o: &mut String) {
        match self {
            None => o.push_str("?-"),
            Some(x) => {
                o.push_str("?(");
                x.shape(o);
                o.push(')')
            }
        }
    }
}
impl<T: Shape> Shape for Vec<T> {
    fn shape(&self, o: &mut String) {
        o.push('[');
        for (i, x) in self.iter().enumerate() {
            if i > 0 {
                o.push_str("; ")
            }
            x.shape(o);
        }
        o.push(']');
    }
}
macro_rules! tup { ($($($t:ident)*,)*) => { $( impl<$($t: Shape),*> Shape for ($($t,)*) {
    #[allow(non_snake_case, unused_assignments)]
    fn shape(&self, o: &mut String) {
        let ($($t,)*) = self;
        o.push('(');
        let mut n = 0;
        $( if n > 0 { o.push_str("; ") } n += 1; $t.shape(o); )*
        o.push(')');
    } } )* } }
tup!(A B, A B C, A B C D, A B C D E, A B C D E F, A B C D E F G, A B C D E F G H, A B C D E F G H I, A B C D E F G H I J, A B C D E F G H I J K, A B C D E F G H I J K L,);
pub fn shape(x: impl Shape) -> String {
    let mut o = String::new();
    x.shape(&mut o);
    o
}
