//! Minimal examples of every production of the grammar, one per line, tokens
//! set apart by blanks.  `nearly` takes one and leaves out, repeats or
//! replaces a single token; whether the outcome is well-formed is for
//! `gramref` to say.

pub const WHOLE: &[&str] = &[
    "within ; model M end M ;",
    "within A ; model M end M ;",
    "within A . B . C ; model M end M ;",
    "final model M end M ;",
    "encapsulated model M end M ;",
    "partial model M end M ;",
    "final encapsulated partial class M end M ;",
    "expandable connector M end M ;",
    "operator M end M ;",
    "operator record M end M ;",
    "operator function M end M ;",
    "pure function M end M ;",
    "impure function M end M ;",
    "pure operator function M end M ;",
    "impure operator function M end M ;",
    "model M \"d\" end M ;",
    "model M \"d\" + \"e\" end M ;",
    "model extends M end M ;",
    "model extends M ( x = 1 ) \"d\" Real y ; end M ;",
    "model A end A ; model B end B ;",
    "within P ; package A end A ; package B end B ;",
    "type T = Real ;",
    "type T = Real [ 3 ] ;",
    "type T = Real [ 3 ] ( min = 0 ) \"d\" annotation ( A = 1 ) ;",
    "type T = Real ( unit = \"m\" , min = 0 ) ;",
    "type T = . A . B ;",
    "connector T = input Real ;",
    "connector T = output Real \"d\" ;",
    "type E = enumeration ( a ) ;",
    "type E = enumeration ( a , b ) ;",
    "type E = enumeration ( a \"x\" , b \"y\" annotation ( Z = 1 ) , c ) ;",
    "type E = enumeration ( ) ;",
    "type E = enumeration ( : ) ;",
    "type E = enumeration ( : ) \"d\" annotation ( Z = 1 ) ;",
    "function D = der ( F , x ) ;",
    "function D = der ( A . F , x , y ) \"d\" ;",
    "model M public Real x ; end M ;",
    "model M protected Real x ; end M ;",
    "model M Real x ; protected Real y ; public Real z ; equation x = y ; initial equation y = z ; algorithm x := y ; initial algorithm y := z ; end M ;",
    "model M annotation ( A = 1 ) ; end M ;",
    "model M equation x = y ; annotation ( A = 1 ) ; end M ;",
    "model M Real x ; annotation ( A ( b = 1 , C ( d = { 1 , 2 } ) ) , E = F ( g = 1 ) ) ; end M ;",
    "function F external ; end F ;",
    "function F external \"C\" ; end F ;",
    "function F external f ( ) ; end F ;",
    "function F external \"C\" f ( x , 1 ) ; end F ;",
    "function F external \"C\" y = f ( x ) ; end F ;",
    "function F external \"C\" y . z [ 1 ] = f ( x , y ) annotation ( L = \"m\" ) ; end F ;",
    "function F external \"C\" annotation ( L = \"m\" ) ; annotation ( A = 1 ) ; end F ;",
    "function F input Real x ; output Real y ; external \"C\" y = f ( x ) ; annotation ( A = 1 ) ; end F ;",
];

pub const ELEMENT: &[&str] = &[
    "import A ;",
    "import A . B ;",
    "import A .* ;",
    "import A . B .* \"d\" ;",
    "import A . { x } ;",
    "import A . B . { x , y , z } ;",
    "import N = A ;",
    "import N = A . B \"d\" annotation ( Z = 1 ) ;",
    "extends A ;",
    "extends . A . B ;",
    "extends A ( x = 1 ) ;",
    "extends A ( x = 1 , break y ) ;",
    "extends A ( break x ) ;",
    "extends A ( break connect ( x , y ) ) ;",
    "extends A ( break connect ( x . p , y [ 1 ] . q ) , z = 1 ) annotation ( Z = 1 ) ;",
    "extends A ( redeclare B b ) ;",
    "extends A ( ) annotation ( Z = 1 ) ;",
    "Real x ;",
    "Real x , y ;",
    "Real x , y = 1 , z ( start = 0 ) = 2 \"d\" ;",
    "Real [ 3 ] x ;",
    "Real [ 3 , : ] x [ 2 ] ;",
    "Real x [ : ] = { 1 , 2 } ;",
    "Real x = 1 ;",
    "Real x := 1 ;",
    "Real x = break ;",
    "Real x ( start = 1 ) ;",
    "Real x ( start = 1 , fixed = true ) = 2 ;",
    "Real x ( start = 1 ) = break ;",
    "Real x ( ) ;",
    "Real x if b ;",
    "Real x = 1 if b \"d\" annotation ( Z = 1 ) ;",
    "Real x \"d\" ;",
    "Real x \"d\" + \"e\" + \"f\" ;",
    "Real x annotation ( Z = 1 ) ;",
    ". A . B x ;",
    "flow Real x ;",
    "stream Real x ;",
    "discrete Real x ;",
    "parameter Real x = 1 ;",
    "constant Real x = 1 ;",
    "input Real x ;",
    "output Real x ;",
    "flow discrete input Real x ;",
    "redeclare Real x ;",
    "final Real x ;",
    "inner Real x ;",
    "outer Real x ;",
    "inner outer Real x ;",
    "redeclare final inner outer parameter Real x = 1 ;",
    "replaceable Real x ;",
    "replaceable Real x constrainedby Real ;",
    "replaceable A x constrainedby B ( y = 1 ) \"d\" annotation ( Z = 1 ) ;",
    "redeclare final inner outer replaceable A x constrainedby . B . C ;",
    "replaceable model A = B ;",
    "replaceable model A = B constrainedby C ;",
    "replaceable package A = B constrainedby C ( redeclare model D = E ) \"d\" ;",
    "replaceable model A end A constrainedby C ;",
    "model A end A ;",
    "redeclare model extends A end A ;",
    "redeclare function A = B ;",
    "encapsulated function A = B ( x = 1 ) ;",
    "type E = enumeration ( a , b ) ;",
    "A x ( y = 1 , z . w = 2 , v ( u = 3 ) = 4 \"d\" ) ;",
    "A x ( each y = 1 ) ;",
    "A x ( final y = 1 ) ;",
    "A x ( each final y = 1 \"d\" ) ;",
    "A x ( y ) ;",
    "A x ( y \"d\" ) ;",
    "A x ( y := 1 ) ;",
    "A x ( y = break ) ;",
    "A x ( redeclare B b ) ;",
    "A x ( redeclare B b = 1 ) ;",
    "A x ( redeclare each final B b ( y = 1 ) \"d\" annotation ( Z = 1 ) ) ;",
    "A x ( redeclare parameter B b [ 2 ] = 1 ) ;",
    "A x ( redeclare flow input . B . C b ) ;",
    "A x ( redeclare model B = C ) ;",
    "A x ( redeclare final package B = C ( y = 1 ) \"d\" ) ;",
    "A x ( redeclare function extends B = C ) ;",
    "A x ( redeclare type B = enumeration ( a , b ) ) ;",
    "A x ( redeclare replaceable B b ) ;",
    "A x ( redeclare replaceable B b constrainedby C ( y = 1 ) ) ;",
    "A x ( redeclare replaceable model B = C constrainedby D ) ;",
    "A x ( replaceable B b ) ;",
    "A x ( each final replaceable B b constrainedby C ) ;",
    "A x ( replaceable model B = C constrainedby D ) ;",
    "A x ( replaceable operator record B = C , y = 1 ) ;",
];

pub const EQUATION: &[&str] = &[
    "x = y ;",
    "x = y \"d\" ;",
    "x = y \"d\" annotation ( Z = 1 ) ;",
    "f ( ) ;",
    "f ( x , y ) ;",
    "A . f ( x ) \"d\" ;",
    "assert ( x > 0 , \"m\" ) ;",
    "( x , y ) = f ( z ) ;",
    "( x , , y ) = f ( z ) ;",
    "( , x ) = f ( z ) ;",
    "{ x , y } = z ;",
    "connect ( a , b ) ;",
    "connect ( a . p , b [ 1 ] . q [ 2 ] ) annotation ( L = 1 ) ;",
    "connect ( a , b ) \"d\" annotation ( L = 1 ) ;",
    "if a then x = y ; end if ;",
    "if a then x = y ; else z = y ; end if ;",
    "if a then x = y ; elseif b then z = y ; end if ;",
    "if a then x = y ; v = w ; elseif b then z = y ; elseif c then connect ( a , b ) ; else f ( x ) ; end if \"d\" ;",
    "if a then end if ;",
    "if a then else end if ;",
    "if a then elseif b then end if ;",
    "for i in 1 : 3 loop x [ i ] = y ; end for ;",
    "for i loop x [ i ] = y ; z [ i ] = y ; end for ;",
    "for i in a , j in b loop x [ i , j ] = y ; end for ;",
    "for i in 1 : 2 : 3 , j loop connect ( a [ i ] , b [ j ] ) ; end for annotation ( Z = 1 ) ;",
    "for i in { 1 , 2 } loop if a then x = y ; end if ; end for ;",
    "for i in 1 : 2 loop end for ;",
    "when a then x = y ; end when ;",
    "when a then reinit ( x , y ) ; elsewhen b then x = z ; elsewhen c then x = w ; y = v ; end when ;",
    "when { a , b } then x = y ; end when \"d\" ;",
    "when a then if b then x = y ; end if ; for i in c loop x = y ; end for ; end when ;",
    "when a then end when ;",
    "der ( x ) = y ;",
    "- x = y ;",
    "x = if a then b else c ;",
];

pub const STATEMENT: &[&str] = &[
    "x := y ;",
    "x . y [ 1 ] . z := w ;",
    ". x := y ;",
    "x := y \"d\" annotation ( Z = 1 ) ;",
    "f ( ) ;",
    "f ( x , y ) ;",
    "A . f ( x ) \"d\" ;",
    "( x , y ) := f ( z ) ;",
    "( x ) := f ( ) ;",
    "( ) := f ( ) ;",
    "( x , , y ) := A . f ( z , w ) \"d\" ;",
    "( , x ) := f ( z ) ;",
    "break ;",
    "return ;",
    "break \"d\" ;",
    "return annotation ( Z = 1 ) ;",
    "if a then x := y ; end if ;",
    "if a then x := y ; else z := y ; end if ;",
    "if a then x := y ; elseif b then z := y ; end if ;",
    "if a then x := y ; v := w ; elseif b then break ; elseif c then return ; else f ( x ) ; end if \"d\" ;",
    "if a then else end if ;",
    "for i in 1 : 3 loop x [ i ] := y ; end for ;",
    "for i loop x [ i ] := y ; break ; end for ;",
    "for i in a , j in b loop x [ i , j ] := y ; end for ;",
    "for i in 1 : 2 : 3 , j loop f ( i ) ; end for annotation ( Z = 1 ) ;",
    "while a loop x := y ; end while ;",
    "while a and b loop x := y ; break ; end while \"d\" ;",
    "while a loop while b loop ( x , y ) := f ( z ) ; end while ; end while ;",
    "when a then x := y ; end when ;",
    "when a then reinit ( x , y ) ; elsewhen b then x := z ; elsewhen c then y := v ; end when ;",
    "when a then end when ;",
    "while a loop end while ;",
    "x := if a then b else c ;",
];

pub const EXPRESSION: &[&str] = &[
    "1",
    "1.5",
    "\"s\"",
    "true",
    "x",
    ". x",
    "x . y",
    ". x . y . z",
    "x [ 1 ]",
    "x [ : ]",
    "x [ 1 , : , y ]",
    "x [ 1 ] . y [ 2 ] . z",
    "x [ end ]",
    "x [ 1 : end ]",
    "- x",
    "+ x",
    ".- x",
    ".+ x",
    "x + y",
    "x - y",
    "x .+ y",
    "x .- y",
    "x * y",
    "x / y",
    "x .* y",
    "x ./ y",
    "x ^ y",
    "x .^ y",
    "- x ^ y",
    "x ^ 2 + y ^ 3",
    "x * y + z / w - v",
    "x < y",
    "x <= y",
    "x > y",
    "x >= y",
    "x == y",
    "x <> y",
    "not x",
    "x and y",
    "x or y",
    "not x and not y",
    "x < y and y < z or w",
    "not x == y",
    "1 : 2",
    "1 : 2 : 3",
    "x + 1 : y - 1",
    "( x )",
    "( x + y ) * z",
    "( x , y )",
    "( , x )",
    "( x , , y )",
    "( x ) [ 1 ]",
    "{ x }",
    "{ x , y , z }",
    "{ { x , y } , { z , w } }",
    "{ x for i in a }",
    "{ x for i }",
    "{ x for i in 1 : 3 , j in b }",
    "{ if a then b else c , d }",
    "[ x ]",
    "[ x , y ]",
    "[ x , y ; z , w ]",
    "[ x ; y ; z ]",
    "if a then b else c",
    "if a then b elseif c then d else e",
    "if a then b elseif c then d elseif e then f else g",
    "if a then if b then c else d else if e then f else g",
    "if if a then b else c then d else e",
    "f ( )",
    "f ( x )",
    "f ( x , y )",
    "f ( x , y , z )",
    "f ( x + y , if a then b else c )",
    "f ( x = 1 )",
    "f ( x = 1 , y = 2 )",
    "f ( x , y = 2 )",
    "f ( x , y = 2 , z = 3 )",
    "f ( x , y , z = 3 )",
    "f ( x for i in a )",
    "f ( x for i in a , j in b )",
    "f ( x for i )",
    "f ( if a then b else c for i in d )",
    "f ( function g ( ) )",
    "f ( function g ( x = 1 ) )",
    "f ( function A . g ( x = 1 , y = 2 ) , z )",
    "f ( x , function g ( y = 1 ) )",
    "f ( x , function . A . g ( y = function h ( z = 1 ) ) , w )",
    "f ( x = function g ( ) )",
    "f ( x , y = function g ( z = 1 ) , w = 2 )",
    "f ( function g ( ) , x = 1 )",
    "f ( function g ( ) , function h ( ) )",
    "A . f ( x )",
    ". A . f ( x )",
    "A . f [ 1 ] ( x )",
    "der ( x )",
    "initial ( )",
    "pure ( f ( x ) )",
    "der ( x ) + der ( y )",
    "f ( g ( h ( x ) ) )",
    "x [ f ( y ) ]",
    "x [ if a then b else c ]",
    "f ( ( x ) , { y } , [ z ] )",
    "- ( - x )",
    "x + ( - y )",
    "not ( a and b )",
    "( if a then b else c ) + d",
];

/// Where an expression can stand.
pub const PLACE: &[(&str, &str)] = &[
    ("model M Real x =", "; end M ;"),
    ("model M equation x =", "; end M ;"),
    ("model M equation", "= y ; end M ;"),
    ("model M equation", "; end M ;"),
    ("function M algorithm x :=", "; end M ;"),
    ("function M algorithm f (", ") ; end M ;"),
    ("model M Real x if", "; end M ;"),
    ("model M Real x ( start =", ", min = 0 ) ; end M ;"),
    ("model M Real x [", "] ; end M ;"),
    ("model M equation if", "then x = y ; end if ; end M ;"),
    ("model M equation for i in", "loop x = y ; end for ; end M ;"),
    ("model M equation when", "then x = y ; end when ; end M ;"),
    ("function M algorithm while", "loop break ; end while ; end M ;"),
    ("model M annotation ( A =", ") ; end M ;"),
];

/// What a token can be replaced by.
pub const TOKENS: &[&str] = &[
    ";", ",", "(", ")", "[", "]", "{", "}", "=", ":=", ":", ".", "+", "-", "*", "^", "<", "==", "and", "or", "not", "if", "then", "else",
    "elseif", "end", "for", "in", "loop", "when", "elsewhen", "while", "equation", "algorithm", "initial", "public", "protected", "model",
    "function", "type", "record", "connector", "package", "operator", "pure", "impure", "expandable", "partial", "encapsulated", "final",
    "each", "redeclare", "replaceable", "constrainedby", "extends", "import", "inner", "outer", "flow", "stream", "discrete", "parameter",
    "constant", "input", "output", "within", "external", "annotation", "der", "connect", "break", "return", "enumeration", "true", "x", "1",
    "1.5", "\"s\"",
];

use crate::prng::Rng;

fn words(s: &str) -> impl Iterator<Item = String> + '_ {
    s.split(' ').filter(|x| !x.is_empty()).map(|x| x.to_string())
}

/// Every template as a whole file.
pub fn all() -> Vec<Vec<String>> {
    let mut o: Vec<Vec<String>> = WHOLE.iter().map(|x| words(x).collect()).collect();
    let mut put = |a: &str, b: &str, c: &str| o.push(words(a).chain(words(b)).chain(words(c)).collect());
    for x in ELEMENT {
        put("model M", x, "end M ;");
    }
    for x in EQUATION {
        put("model M equation", x, "end M ;");
    }
    for x in STATEMENT {
        put("function M algorithm", x, "end M ;");
    }
    for x in EXPRESSION {
        for (a, b) in PLACE {
            put(a, x, b);
        }
    }
    o
}

/// One of them, or a class that holds several.
pub fn pick(r: &mut Rng) -> Vec<String> {
    let (list, head): (&[&str], &str) = match r.weighted(&[18, 24, 16, 16, 26]) {
        0 => (WHOLE, ""),
        1 => (ELEMENT, *r.pick(&["model M", "model M", "package M", "model M protected", "record M"])),
        2 => (EQUATION, *r.pick(&["model M equation", "model M equation", "model M initial equation"])),
        3 => (STATEMENT, *r.pick(&["function M algorithm", "function M algorithm", "model M initial algorithm"])),
        _ => {
            let e = *r.pick(EXPRESSION);
            let (a, b) = *r.pick(PLACE);
            return words(a).chain(words(e)).chain(words(b)).collect();
        }
    };
    if head.is_empty() {
        return words(*r.pick(list)).collect();
    }
    let mut o: Vec<String> = words(head).collect();
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        o.extend(words(*r.pick(list)));
    }
    o.extend(words("end M ;"));
    o
}

/// One with a single token left out, repeated, replaced, put in or exchanged
/// with its neighbour.
pub fn nearly(r: &mut Rng) -> Vec<String> {
    let mut t = pick(r);
    let i = r.below(t.len());
    match r.weighted(&[50, 8, 18, 12, 8, 4]) {
        0 => {
            t.remove(i);
        }
        1 => {
            let x = t[i].clone();
            t.insert(i, x);
        }
        2 => t[i] = r.pick(TOKENS).to_string(),
        3 => t.insert(i, r.pick(TOKENS).to_string()),
        4 => {
            let j = (i + 1) % t.len();
            t.swap(i, j);
        }
        _ => {}
    }
    t
}
