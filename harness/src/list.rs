//! The templates, per property, and the vocabularies their holes range over.

pub struct T {
    /// property
    pub p: &'static str,
    /// 0: script, 1: module, 2: both
    pub m: u8,
    /// 0: quick and thorough tier, 1: thorough tier only
    pub t: u8,
    pub s: &'static str,
}
pub struct Edit {
    pub m: bool,
    pub t: u8,
    pub s: &'static str,
}

/// The characters of a hole, if it is a single-character one.
pub fn alphabet(name: &[u8]) -> &'static [u8] {
    match name {
        b"pc" => b"{}()[];,<>+-*/%&|^!~?:=.",
        b"op" => b"<>+-*/%&|^!=",
        b"num" => b"0123456789abcdefxXoOBE.+-_nA",
        b"nx" => b"0178bBoOxXeEfF.n_",
        b"hex" => b"0123456789abcdefABCDEF}g{ ",
        b"h16" => b"0123456789abcdef",
        b"hx" => b"019afAF",
        b"str" => b"ab01789'\"\\\n\r`xuntbvrfdeX{}$ ",
        b"esc" => b"'\"\\bfnrtv0123456789xu{}abAFg\n\r$` ",
        b"tm" => b"`$\\{}ab\n\r0x1u",
        b"cm" => b"*/\n\ra ",
        b"re" => b"/[]\\\na*=(){}+",
        b"sl" => b"/=*\n ag",
        b"quote" => b"'\"",
        b"sep" => b" \n;,",
        b"nl" => b" \n",
        _ => b"",
    }
}

/// A hole's alternatives (at most 64).
pub fn vocab(name: &[u8]) -> &'static [&'static str] {
    match name {
        b"bin" => &[
            "+", "-", "*", "/", "%", "**", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "<<", ">>", ">>>", "&", "|",
            "^", "&&", "||", "in", "instanceof",
        ],
        b"bin1" => &["+", "*", "**", "<", "==", ">>", "&", "|", "^", "&&", "||", "in", "instanceof", "-", "/"],
        b"asg" => &["=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "=>", "==", ","],
        b"un" => &["+", "-", "!", "~", "typeof", "void", "delete", "++", "--", "new", "await", "yield", "..."],
        b"post" => &["++", "--", "", "\n++", "\n--", "()", ".b", "[0]", "`x`", "\n(c)", "=> 1", "!"],
        b"opr" => &[
            "+", "-", "*", "**", "/", "++", "--", "!", "typeof", "delete", "=", "+=", "==", "&&", "||", "?", ":", ",",
            "in", "a", "(", ")", "instanceof", "=>", "new", ".", "[", "]", "\n", "void", "<",
        ],
        b"punct" => &[
            "{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "+",
            "-", "*", "/", "%", "**", "++", "--", "<<", ">>", ">>>", "&", "|", "^", "!", "~", "&&", "||", "?", ":",
            "=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "=>", "#", "@", "&&&",
            "|||", "<!", "!!", "=>>", "****", "+++", "..", "....",
        ],
        b"tok" => &[
            "a", "b", "async", "await", "yield", "let", "of", "get", "set", "static", "function", "function*", "class",
            "extends", "{", "}", "(", ")", "[", "]", ",", ";", ":", "?", "=>", "=", "+=", "...", ".", "`", "${", "`x`",
            "/", "/a/", "+", "*", "**", "++", "!", "typeof", "in", "instanceof", "new", "new.target", "super", "this",
            "null", "1", "'x'", "if", "else", "for", "while", "do", "return", "break", "case", "try", "var", "const",
            "import", "export", "\n", "as",
        ],
        b"kw" => &[
            "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else",
            "enum", "export", "extends", "finally", "for", "function", "if", "import", "in", "instanceof", "new",
            "return", "super", "switch", "this", "throw", "try", "typeof", "var", "void", "while", "with", "null",
            "true", "false", "yield", "await", "async", "of", "get", "set", "static", "eval",
            "arguments", "implements", "interface", "package", "private", "protected", "public", "target", "from", "as",
            "constructor", "prototype", "undefined", "nul", "thiss", "abc", "I", "NaN", "$", "_a1",
        ],
        b"esckw" => &[
            "\\u0069f", "n\\u0075ll", "\\u{74}rue", "fals\\u0065", "v\\u0061r", "th\\u0069s", "\\u006ff", "g\\u0065t",
            "s\\u0065t", "\\u0061sync", "\\u{61}s", "\\u0066rom", "t\\u0061rget", "st\\u0061tic", "\\u0061wait",
            "yi\\u0065ld", "ev\\u0061l", "int\\u0065rface", "\\u0066unction", "cl\\u0061ss", "\\u0061b", "a\\u{62}",
            "\\u0030a", "a\\u0030", "\\u{1d7d8}", "\\u{20000}", "\\u00e9", "\\u200c", "a\\u200d", "\\u0020", "\\u0024",
            "d\\u0065lete", "typ\\u0065of", "\\u0069n", "constructo\\u0072", "prototyp\\u0065",
        ],
        b"word" => &[
            "a", "async", "await", "yield", "of", "get", "set", "static", "eval", "arguments", "interface", "public",
            "if", "null", "true", "this", "enum", "as", "from", "target", "new", "in", "undefined", "package","let",],
        b"ws" => &[
            " ", "\t", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{2000}", "\u{3000}", "\u{180e}", "\n", "\r", "\r\n",
            "\u{2028}", "\u{2029}", "/**/", "/*\n*/", "/*\r*/", "/*\u{2028}*/", "//\n", "//\r", "//\u{2029}", "/***/",
            "/*/*/", "/**\n*/ /**/", "\u{85}", "/* // */", "// /*\n", "\u{200b}", "\u{1680}",
        ],
        b"ws1" => &[" ", "\t", "\n", "\r\n", "\u{2028}", "/**/", "/*\n*/", "//\n", "\u{feff}"],
        b"lt" => &["\n", "\r", "\r\n", "\u{2028}", "\u{2029}", "\n\r", "\u{85}", " ", "\u{b}", "\u{c}"],
        b"expr" => &[
            "a", "1", "'x'", "/r/", "`t`", "this", "null", "(a)", "[a]", "({a})", "function(){}", "class{}", "a=>b",
            "async()=>1", "new a", "new a()", "a.b", "a[b]", "a()", "a`x`", "!a", "-a", "a++", "++a", "a+b", "a**b",
            "a?b:c", "a=b", "a,b", "yield", "await", "async", "({a=1})", "[a=1]", "new.target", "super.a", "super()",
            "(a,b)", "({a:b})", "[...a]", "({})", "(a=1)", "(a.b)", "async(a)", "yield a", "await a", "eval",
            "arguments", "()", "...a", "{}", "((a))", "([a])", "a&&b", "delete a", "async x=>1", "[a,]", "[...a,]",
            "a in b", "function*f(){}", "async function(){}", "a.if", "true", "",
        ],
        b"ex" => &[
            "a", "1", "/r/", "`t`", "(a)", "[a]", "({a})", "function(){}", "a=>b", "new a", "new a()", "a.b", "a[b]",
            "a()", "!a", "a++", "a+b", "a**b", "a?b:c", "a=b", "a,b", "yield", "await a", "async", "({a=1})", "class{}",
            "a in b", "async()=>1", "...a", "",
        ],
        b"stmt" => &[
            ";", "{}", "var a;", "let a;", "const a=1;", "const a;", "if(a);", "if(a);else;", "for(;;);", "while(a);",
            "do;while(a)", "switch(a){}", "try{}catch{}", "try{}finally{}", "try{}", "throw a;", "throw\na;", "return;",
            "return a;", "break;", "continue;", "break l;", "continue l;", "debugger;", "function f(){}",
            "function*f(){}", "async function f(){}", "class A{}", "l:;", "import'a';", "export{};", "'use strict';",
            "with(a);", "a;", "yield;", "yield a;", "await a;", "async();", "let", "let[a]=b;", "new.target;",
            "if(a)function f(){}", "l:function f(){}", "(function(){});", "({});", "async\nfunction f(){}", "/a/;",
            "`x`;", "var a,b=1;", "for(a of b);", "for(a in b);", "for(var a in b);", "for(let a of b);", "let a=1,b;",
            "throw;", "else;", "case 1:", "interface;", "()=>{};", "a\n", "{a}", "{a:1}", "{a:1,b:2}", "",
        ],
        b"st" => &[
            ";", "{}", "var a;", "let a;", "if(a);", "for(;;);", "return;", "break;", "continue;", "function f(){}",
            "function*f(){}", "async function f(){}", "class A{}", "l:;", "a;", "yield;", "await a;", "let[a]=b;",
            "l:function f(){}", "'use strict';", "with(a);", "const a=1;", "throw a;", "import'a';", "interface;",
            "else;", "", "break l;", "a", "return a",
        ],
        b"bind" => &[
            "a", "[a]", "[a,b]", "[,a]", "[a,,]", "[...a]", "[...a,]", "[...[a]]", "[a=1]", "[...a=1]", "{a}", "{a,b}",
            "{a:b}", "{a=1}", "{a:b=1}", "{...a}", "{...a,}", "{...{a}}", "{...[a]}", "{...a,b}", "{[a]:b}", "{'a':b}",
            "{1:b}", "{if:b}", "{if}", "{a:[b]}", "{a:{b}}", "{a:{b=1}}", "{a:1}", "{a:b.c}", "[a.b]", "[1]", "(a)",
            "{a(){}}", "eval", "arguments", "yield", "await", "async", "static", "this", "a.b", "{get a(){}}",
            "{a:(b)}", "[(a)]", "...a", "...[a]", "{}", "[]", "[[]]", "{eval}", "{a:eval}", "[yield]", "{await}",
            "a=1", "[a]=b", "{a}=b", "[(a.b)]", "{...a.b}", "[...a.b]", "{'a'}", "{[a]}", "{a:b,}", "",
        ],
        b"bd" => &[
            "a", "[a]", "[,a]", "[...a]", "[a=1]", "{a}", "{a:b}", "{a=1}", "{a:b=1}", "{...a}", "{[a]:b}", "{'a':b}",
            "{if:b}", "{if}", "{a:[b]}", "[a.b]", "(a)", "{a:b.c}", "eval", "yield", "await", "...a", "a=1", "[a]=b", "",
            "[...[a]]", "{...{a}}", "{a:(b)}", "a.b", "let",
        ],
        b"pat" => &[
            "a", ",", "[", "]", "{", "}", ":", "=", "...", "1", "'s'", "(", ")", ".b", "if", "eval", "a()", "[a]",
        ],
        b"prop" => &[
            "a", "a:1", "a=1", "'a':1", "1:1", "[a]:1", "if:1", "if", "get a(){}", "set a(b){}", "get(){}", "set(){}",
            "async a(){}", "*a(){}", "async*a(){}", "async(){}", "get:1", "set", "async", "...a", "...a.b", "a(){}",
            "'a'(){}", "1(){}", "[a](){}", "get 'a'(){}", "get[a](){}", "get 1(){}", "get a(b){}", "set a(){}",
            "set a(b,c){}", "set a(...b){}", "set a([b]){}", "async get a(){}", "get*a(){}", "*get(){}", "async\na(){}",
            "async a", "get a", "*a", "__proto__:1", "null", "true:1", "static a(){}", "a:b=1", "a:[b]", "a:{b}",
            "yield", "await", "eval", "0x1:1", ".5:1", "'a'", "1", "a b", "get if(){}", "async if(){}", "get=1",
            "get,set", "async:1", "static", "...", "*'a'(){}", "",
        ],
        b"pr" => &[
            "a", "a:1", "a=1", "'a':1", "[a]:1", "if:1", "get a(){}", "set a(b){}", "get(){}", "async a(){}", "*a(){}",
            "async*a(){}", "get:1", "set", "async", "...a", "a(){}", "a:b=1", "a:[b]", "a:{b}", "a:{b=1}", "yield", "1",
            "", "a:(b)", "a:b.c", "...b.c", "get=1",
        ],
        b"memb" => &[
            "a(){}", "'a'(){}", "1(){}", "[a](){}", "get a(){}", "set a(b){}", "get(){}", "set(){}", "static(){}",
            "async(){}", "static a(){}", "static get a(){}", "static set a(b){}", "static async a(){}", "static*a(){}",
            "static async*a(){}", "async a(){}", "*a(){}", "async*a(){}", "constructor(){}", "'constructor'(){}",
            "static constructor(){}", "get constructor(){}", "*constructor(){}", "async constructor(){}",
            "['constructor'](){}", "static prototype(){}", "static 'prototype'(){}", "prototype(){}",
            "static get prototype(){}", "static['prototype'](){}", ";", "static static(){}", "static get(){}",
            "static set(){}", "static async(){}", "get static(){}", "if(){}", "get if(){}", "static if(){}", "a:1",
            "a,", "get a(b){}", "set a(){}", "set a(...b){}", "async\na(){}", "get\na(){}", "static\na(){}", "a b(){}",
            "get*a(){}", "async get a(){}", "get async(){}", "null(){}", "true(){}", "yield(){}", "await(){}", "eval(){}",
            "...a", "a", "{}", "static 1(){}", "get[a](){}", "set'a'(b){}", "",
        ],
        b"mb" => &[
            "a(){}", "[a](){}", "get a(){}", "set a(b){}", "static a(){}", "constructor(){}", "async a(){}", "*a(){}",
            ";", "static async*a(){}", "'a'(){}", "get(){}", "static(){}", "", "constructor(){super()}",
            "a(){super.a}", "static get a(){}",
        ],
        b"head" => &[
            "", "a", "var a", "let a", "const a", "const a=1", "var a=1", "let a=1", "var a,b", "let a,b", "a=1", "a,b",
            "[a]", "({a})", "{a}", "{a=1}", "[a=1]", "a.b", "a[b]", "a()", "(a)", "1", "this", "a+b", "a in b",
            "(a in b)", "var [a]", "let {a}", "const [a]", "var [a]=b", "let {a}=b", "var a=b in c", "let a=b in c",
            "a=>b", "async", "async()=>1", "yield", "await", "new a", "[a].b", "({a}).b", "var let", "a++", "'x'", "/r/",
            "function(){}", "class{}", "({a:b})", "[...a]", "[(a)]", "([a])", "((a))", "var a=(b in c)", "async x=>1",
            "a?b:c", "a?b in c:d", "[a in b]", "!a", "of", "var of", "const of", "{a:b}", "x=[a in b]", "let of",
        ],
        b"hd" => &[
            "", "a", "var a", "let a", "const a", "var a=1", "[a]", "{a}", "{a=1}", "a.b", "(a)", "1", "a+b",
            "var [a]", "let {a}", "const [a]=b", "var a=b in c", "async", "yield", "a,b", "let a,b", "a=1", "/r/",
            "a in b", "[a=1]",
        ],
        b"sep2" => &[";", " of ", " in ", ",", "", "="],
        b"par" => &[
            "", "a", "a,b", "a,", ",", "a=1", "...a", "...a,", "...a,b", "[a]", "{a}", "{a=1}", "[a]=1", "a,...b",
            "...[a]", "...a=1", "eval", "yield", "await", "arguments", "a=yield", "a=await b", "a,a", "(a)", "a.b", "1",
            "if", "a b", "async", "interface", "a=b=>c", "a=(b)", "{a:b}", "a=yield b", "this", "a=await", "static",
            "{a:[b]=1}", "...{a}", "enum",
        ],
        b"decl" => &["var a", "let a", "const a=1", "const a", "var a=1,b", "let a=1,b", "const a=1,b", "var [a]", "let [a]",
            "const [a]", "var", "let", "const", "var a b", "let a b", "var a=", "const a=", "var a,", "let a,b,", "let let",
            "let a=b in c", "var a=(b,c)", "let a=b,c", "var a=b=c", "const a=b=>c,d=1", "let [a]=b,{c}=d", "let a;let b",
            "const {a}", "const {a}=b", "var {a}", "let {a}=b,c", "var a:b", "let (a)", "let await", "const yield=1"],
        b"ret" => &["return", "break", "continue", "throw", "yield", "a", "async", "break l", "continue l", "debugger"],
        b"line" => &[
            "a", "1", "'x'", "++", "--", "(b)", "[b]", "`b`", "/b/g", "+b", ".b", ";", "}", "{}", "=>b", "function f(){}",
            "b", "=b", "?b:c", "in b", "instanceof b", "if(b);", "var b", "let b", "*b", "async", "return", ":", ",b",
            "!b", "class B{}", "do;while(b)",
        ],
        b"ln" => &["a", "a++", "++a", "var a", "return", "return a", "break", "throw a", "x=a", "(a)", "a.b", "if(a)b",
            "do;while(a)", "()=>a", "()=>{}", "function f(){}", "{}", "class A{}", "continue", "yield", "async", "let a",
            "async a", "a:", "`t`", "a=>", "a+", "a?b", "for(;;)", "while(a)", "else", "debugger"],
        b"tail" => &["", ".b", "[b]", "(b)", "`b`", "()", "(...b)", "(b,c)", "(b,)", ".if", "[b,c]", "`${b}`", ".1",
            "(...b,)", "()()", "++", "=>c", "[...b]", ". ", "(,)", "(b c)"],
        b"hd2" => &["a", "new a", "new new a", "super", "new.target", "new super", "this", "(a)", "async", "function(){}",
            "class{}", "`x`", "1", "'x'", "/x/", "[a]", "({})", "import", "new async", "new (a)", "new a()", "new this",
            "new function(){}", "new class{}", "new x=>1", "async function(){}", "new async function(){}", "new !a",
            "new await a", "1.", "new /x/", "new a.b"],
        b"imp" => &[
            "'a'", "a from 'a'", "* as a from 'a'", "{} from 'a'", "{a} from 'a'", "{a,} from 'a'", "{a as b} from 'a'",
            "{a,b} from 'a'", "a,{b} from 'a'", "a,* as b from 'a'", "{if} from 'a'", "{if as b} from 'a'",
            "{default as b} from 'a'", "{default} from 'a'", "* from 'a'", "a", "{a}", "a from b", "a,b from 'a'",
            "{a},b from 'a'", "{,} from 'a'", "{a as if} from 'a'", "eval from 'a'", "{eval} from 'a'",
            "{as} from 'a'", "{as as as} from 'a'", "{a as} from 'a'", "from from 'a'", "{from} from 'a'",
            "* as if from 'a'", "{a as b c} from 'a'", "async from 'a'", "await from 'a'", "yield from 'a'",
            "{await} from 'a'", "* as eval from 'a'", "a,{} from 'a'", "a, from 'a'", "{'a' as b} from 'a'", "a\nfrom\n'a'",
            "{static} from 'a'", "of from 'a'", "let from 'a'", "{a as async} from 'a'", "", "'a' b", "{a} 'a'",
            "* a from 'a'", "a from `a`", "{* as a} from 'a'", "a from 1", "(a)",
        ],
        b"exp" => &[
            "{}", "{a}", "{a,}", "{a as b}", "{a as if}", "{if as a}", "{if}", "{a,b as c}", "{} from 'a'", "{a} from 'a'",
            "{if} from 'a'", "{if as if} from 'a'", "* from 'a'", "{a as default}", "{default} from 'a'", "default a",
            "default a,b", "default a=b", "default function(){}", "default function f(){}", "default function*(){}",
            "default function*f(){}", "default async function(){}", "default async function f(){}",
            "default async function*(){}", "default class{}", "default class A{}", "default class extends A{}",
            "default a=>b", "default async()=>1", "default async", "default {}", "default [a]", "default (function(){})",
            "var a", "let a", "const a=1", "const a", "function f(){}", "function*f(){}", "async function f(){}",
            "class A{}", "function(){}", "class{}", "a", "default", "default var a", "default let", "default if", "*",
            "{a", "{'a'}", "* as if", "async\nfunction f(){}", "default async\nfunction f(){}", "{a}\nfrom 'a'", "{,}",
            "default async a=>1", "default new a", "default /a/", "var [a]=b", "let {a}", "default yield", "",
        ],
        b"mod" => &[
            "import a from 'a';", "import 'a';", "export {};", "export default a;", "export default function(){}",
            "export * from 'a';", "a;", "function f(){}", "var await;", "import {a} from 'a'\n", "export {a}\n",
            "export var b\n", "'use strict';", "with(a);", "let a;", "yield;", "return;", "class A{}", "import(a);",
            "async function f(){await a}", "export default class{}", "export default a\n", "export class B{}",
            "var interface;", "", "await: ;", "{import 'a'}", "if(a)export{};",
        ],
        b"dir" => &[
            "'use strict'", "\"use strict\"", "'use\\x20strict'", "('use strict')", "'use strict' ", "'use strict'+a",
            "'use strict',a", "'use strict'.a", "a", "'a'", "", "'use  strict'", "'use strict'()", "`use strict`",
            "'use strict'\n+a", "'use strict'\na", "'use strict'=a", "'use strict'?a:b", "'Use strict'", "'use strict'\n(a)",
            "'use stric\\t'", "'a\\\nb'", "'use strict'\n/a/g", "'use strict'\n[a]", "'use strict'++", "'use strict' in a",
        ],
        b"strict" => &[
            "with(a);", "eval=1", "arguments=1", "var eval", "var public", "public=1", "eval++", "--arguments",
            "function eval(){}", "function f(eval){}", "(eval)=>1", "eval=>1", "yield=1", "var yield", "static:;",
            "try{}catch(eval){}", "[eval]=a", "({eval}=a)", "({a:eval}=a)", "({eval=1}=a)", "var [arguments]=a",
            "var {eval}=a", "class eval{}", "eval", "arguments", "eval.a=1", "a.eval=1", "({eval:1})", "({eval})",
            "if(a)function f(){}", "l:function f(){}", "for(eval of a);", "for(eval in a);", "for(var eval of a);",
            "async eval=>1", "interface", "x=package", "({public})", "({public}=a)", "a.public", "({public:1})",
            "[...arguments]=a", "[...eval]=a", "({...eval}=a)", "(a,eval)=>1", "({eval})=>1", "function f(...eval){}",
            "let", "x=function eval(){}", "x=class static{}", "({m(eval){}})", "({set m(eval){}})", "(eval)", "(eval)=1",
            "eval:;", "break eval", "protected=>1", "function static(){}", "eval+=1", "for(var a=1 in b);", "+eval",
            "a=eval", "new eval", "typeof yield",
        ],
        b"ctx" => &[
            "return", "return a", "break", "continue", "break l", "continue l", "yield", "yield a", "yield*a", "await",
            "await a", "a=yield", "a=await a", "var yield", "var await", "yield:;", "await:;", "yield\na", "yield*",
            "function yield(){}", "function await(){}", "(yield)=>1", "(await)=>1", "yield=>1", "await=>1",
            "async(await)=>1", "async await=>1", "x={yield}", "x={await}", "a[yield]", "f(await a)", "await\na",
            "yield/a/g", "await/a/g", "x=yield/a/g", "typeof await a", "a+yield", "await a**b", "-await a", "yield?a:b",
            "(yield)", "(await)", "[yield]=a", "({yield}=a)", "class yield{}", "class A{[yield](){}}", "`${yield}`",
            "a=b=yield c", "await yield", "yield yield a", "yield await a", "await=1", "yield=1", "x=async()=>await a",
            "()=>yield", "()=>await a", "(a=yield)=>1", "(a=await b)=>1", "for(yield of a);", "for(await of a);",
            "a?yield:b", "a?b:yield", "yield,a", "yield in a",
        ],
        b"lit" => &["1", "'x'", "null", "true", "false", "/a/g", "`x`", "this", "0x1F", "0b1", "0o7", "1e3", ".5", "1.",
            "'\\n'", "\"\"", "010", "08", "0", "-1", "NaN", "undefined", "1e400", "'\\0'", "'\\u{1F600}'", "/[/]/", "\u{1F600}"],
        // an expression around an expression
        b"ec" => &[
            "□",
            "(□)",
            "[□]",
            "[a, ...□]",
            "({a: □})",
            "({[□]: a})",
            "({...□})",
            "f(□)",
            "f(...□)",
            "f(a, □)",
            "a[□]",
            "new C(□)",
            "`${□}`",
            "a`b${□}`",
            "□ ? a : b",
            "a ? □ : b",
            "a ? b : □",
            "a = □",
            "a += □",
            "a + □",
            "□ + a",
            "!□",
            "-□",
            "(a, □)",
            "(□, a)",
            "() => □",
            "a => (□)",
            "() => { □ }",
            "function(){ return □ }",
            "function(a = □){}",
            "(a = □) => 1",
            "({a = □}) => 1",
            "([a = □]) => 1",
            "async () => □",
            "async () => { □ }",
            "async (a = □) => 1",
            "async(□)",
            "function*(){ □ }",
            "function*(){ yield □ }",
            "async function(){ □ }",
            "async function(){ await □ }",
            "({m(){ □ }})",
            "({get m(){ □ }})",
            "({*m(a = □){}})",
            "({set m(a = □){}})",
            "({async m(){ □ }})",
            "class { m(){ □ } }",
            "class { [□](){} }",
            "class extends (□) {}",
            "class B extends C { constructor(){ □ } }",
            "class { static set m(a = □){} }",
            "([a = □] = b)",
            "({a = □} = b)",
            "({[□]: a} = b)",
            "([a[□]] = b)",
            "a[□] = b",
            "(□).b",
            "new (□)",
            "(□)`x`",
            "function f(){ a; □ }",
            "a && □",
            "{b: □}",
            "([□])",
            "class A {}, □",
        ],
        // the same, fewer
        b"es" => &[
            "(□)",
            "[□]",
            "({a: □})",
            "({[□]: a})",
            "f(□)",
            "a[□]",
            "`${□}`",
            "a ? □ : b",
            "a ? b : □",
            "a = □",
            "() => □",
            "() => { □ }",
            "function(){ □ }",
            "(a = □) => 1",
            "async () => { □ }",
            "function*(){ □ }",
            "({m(){ □ }})",
            "class { m(a = □){} }",
            "class { [□](){} }",
            "([a = □] = b)",
            "□",
        ],
        // a statement around an expression
        b"hc" => &[
            "x = □",
            "□;",
            "(□)",
            "for (x = □;;) ;",
            "for (□;;) ;",
            "for (var i = □;;) ;",
            "for (let i = □, j;;) ;",
            "for (;□;) ;",
            "for (;;□) ;",
            "for (a of □) ;",
            "for (a in □) ;",
            "for (var a of □) ;",
            "for (let a in □) ;",
            "for (a[□] of b) ;",
            "for ([a = □] of b) ;",
            "for (var [a = □] of b) ;",
            "for (let {a = □} in b) ;",
            "for (var {[□]: a} of b) ;",
            "if (□) ;",
            "if (a) □; else b",
            "if (a) b; else □",
            "while (□) ;",
            "do ; while (□)",
            "switch (□) {}",
            "switch (a) { case □: }",
            "throw □",
            "var a = □",
            "let a = □, b",
            "const a = □",
            "var {a = □} = b",
            "let [a = □] = b",
            "var {[□]: a} = b",
            "with (□) ;",
            "l: □",
            "try {} catch ({a = □}) {}",
            "function f(a = □) {}",
            "function f({a = □}) {}",
            "function f([a = □]) {}",
            "class A extends (□) {}",
            "class A { [□](){} }",
            "class A { m(a = □){} }",
            "function f(){ return □ }",
            "function* f(){ yield □ }",
            "async function f(){ await □ }",
            "async function f(){ for (x = □;;) ; }",
            "'use strict'; □",
            "'use strict'; for (x = □;;) ;",
            "{ □ }",
            "a\n□",
            "for (x = a ? □ : b;;) ;",
            "for (x = a ? b : □;;) ;",
            "for (x = (□);;) ;",
            "for (x = a + □;;) ;",
            "for (let [a = □] = b;;) ;",
            "for (x of y) □",
            "while (a) { □ }",
            "function* f(a = □) {}",
            "async function f(a = □) {}",
            "for (var a = b, c = □;;) ;",
        ],
        // the same, fewer
        b"hs" => &[
            "x = □",
            "□;",
            "for (x = □;;) ;",
            "for (var i = □;;) ;",
            "for (a of □) ;",
            "for (a[□] of b) ;",
            "switch (a) { case □: }",
            "let a = □, b",
            "var [a = □] = b",
            "function f(a = □) {}",
            "class A extends (□) {}",
            "function* f(){ yield □ }",
            "async function f(){ await □ }",
            "throw □",
            "'use strict'; □",
        ],
        // a statement around a statement
        b"r0" => &[
            "a",
            "a",
            "a",
            "a",
            "a",
            "a",
            "a",
            "a",
            "x = [",
            "x = [",
            "x = [",
            "f(",
            "x = {",
            "x = {",
            "x = {",
            "class A {",
            "class A {",
            "var a",
            "let [",
            "function f(",
            "x = (",
            "x = (",
            "x = async (",
            "x = `",
            "x = `",
            "x = `",
            "x = 'b",
            "x = b",
            "x = 1",
            "x = 0x",
            "x = 1.",
            "x = /b",
            "x = /[",
            "//",
            "/*",
            "",
            "a",
            "",
            "",
            "",
            "switch (a) {",
            "switch (a) {",
            "if (a) b;",
            "x =",
            "'a'; ",
            "",
            "x = ",
            "x = ",
            "x = ",
            "x = ",
            "x = ",
            "x = ",
            "x = ",
            "x = ",
            "x = a",
            "",
            "",
            "",
            "",
            "x = a",
        ],
        b"r1" => &[
            "+a",
            " ** a",
            " in a",
            ".b",
            "[b]",
            "(b)",
            "`b`",
            ", b",
            "a,",
            ",",
            "...a,",
            "a,",
            "a,",
            "a(){},",
            "[a]: b,",
            "a(){}",
            ";",
            ", b = 1",
            "a = 1,",
            "a,",
            "a,",
            "a,",
            "a = 1,",
            "${a}",
            "b",
            "\n",
            "a",
            "a",
            "2",
            "f",
            "0",
            "a",
            "(",
            "a",
            "\n",
            "\n",
            " ",
            "a;",
            "a\n",
            ";",
            "case b:",
            "case b: c;",
            " else if (a) b;",
            "\n",
            "'b';",
            "'use strict';",
            "a ? b : ",
            "a = ",
            "a => ",
            "!",
            "typeof ",
            "- ",
            "new ",
            "new ",
            "++",
            "if (a) ",
            "while (a) ",
            "var a;",
            "function f(){}",
            "\\u0061",
        ],
        b"r2" => &[
            "",
            "",
            "",
            "",
            "",
            "",
            "",
            "",
            "]",
            "]",
            "]",
            ")",
            "}",
            "}",
            "}",
            "}",
            "}",
            "",
            "] = b",
            "){}",
            "b) => c",
            "...b) => c",
            ") => c",
            "`",
            "`",
            "`",
            "'",
            "",
            "",
            "",
            "1",
            "/g",
            "]/",
            "\n",
            "*/ a",
            "a",
            "b",
            "",
            "",
            "a",
            "}",
            "default:}",
            "",
            "a",
            "with (a) b",
            "with (a) b",
            "c",
            "b",
            "b",
            "a",
            "a",
            "a",
            "a",
            "a()",
            "b",
            "b",
            "break",
            "b",
            "",
            "",
        ],
        b"sc" => &[
            "□",
            "{ □ }",
            "if (a) □",
            "if (a) ; else □",
            "while (a) □",
            "do □; while (a)",
            "for (;;) □",
            "for (a of b) □",
            "for (a in b) □",
            "for (var a of b) □",
            "for (let a in b) { □ }",
            "for (let a = 1;;) □",
            "switch (a) { case b: □ }",
            "switch (a) { default: □ }",
            "try { □ } catch {}",
            "try {} catch (e) { □ }",
            "try {} finally { □ }",
            "l: □",
            "with (a) □",
            "function f(){ □ }",
            "function* f(){ □ }",
            "async function f(){ □ }",
            "async function* f(){ □ }",
            "x = {m(){ □ }}",
            "x = {*m(){ □ }}",
            "x = {get m(){ □ }}",
            "class A { m(){ □ } }",
            "class A { async m(){ □ } }",
            "class A extends B { constructor(){ □ } }",
            "x = class { static *m(){ □ } }",
            "x = () => { □ }",
            "x = async () => { □ }",
            "(function(){ □ })",
            "x = async function(){ □ }",
            "l: while (a) { □ }",
            "while (a) { m: □ }",
            "switch (a) { case b: c; case d: □ }",
            "a; □",
            "function f(){ while (a) { □ } }",
            "while (a) { x = () => { □ } }",
            "l: { □ }",
            "if (a) { □ } else b",
        ],
        // the same, fewer
        b"ss" => &[
            "□",
            "{ □ }",
            "if (a) □",
            "while (a) □",
            "do □; while (a)",
            "for (a of b) □",
            "switch (a) { default: □ }",
            "try {} catch (e) { □ }",
            "l: □",
            "function f(){ □ }",
            "function* f(){ □ }",
            "async function f(){ □ }",
            "x = {m(){ □ }}",
            "class A { m(){ □ } }",
            "x = () => { □ }",
            "x = async () => { □ }",
        ],
        b"fb" => &[
            "function f(){ □ }",
            "function* f(){ □ }",
            "async function f(){ □ }",
            "async function* f(){ □ }",
            "x = function(){ □ }",
            "x = function* (){ □ }",
            "x = async function(){ □ }",
            "x = async function* (){ □ }",
            "x = () => { □ }",
            "x = () => (□)",
            "x = async () => { □ }",
            "x = async () => (□)",
            "x = a => { □ }",
            "x = async a => { □ }",
            "x = {m(){ □ }}",
            "x = {*m(){ □ }}",
            "x = {async m(){ □ }}",
            "x = {async *m(){ □ }}",
            "x = {get m(){ □ }}",
            "x = {set m(a){ □ }}",
            "class A { m(){ □ } }",
            "class A { *m(){ □ } }",
            "class A { async m(){ □ } }",
            "class A { async *m(){ □ } }",
            "class A { get m(){ □ } }",
            "class A { set m(a){ □ } }",
            "class A { static m(){ □ } }",
            "class A { static *m(){ □ } }",
            "class A { static async m(){ □ } }",
            "class A { static async *m(){ □ } }",
            "class A { static get m(){ □ } }",
            "class A { static set m(a){ □ } }",
            "class A { constructor(){ □ } }",
            "function f(a = □){}",
            "function* f(a = □){}",
            "async function f(a = □){}",
            "async function* f(a = □){}",
            "x = (a = □) => 1",
            "x = async (a = □) => 1",
            "x = {m(a = □){}}",
            "x = {*m(a = □){}}",
            "x = {async m(a = □){}}",
            "x = {async *m(a = □){}}",
            "x = {set m(a = □){}}",
            "class A { m(a = □){} }",
            "class A { *m(a = □){} }",
            "class A { async m(a = □){} }",
            "class A { async *m(a = □){} }",
            "class A { set m(a = □){} }",
            "class A { static async m(a = □){} }",
            "class A { constructor(a = □){} }",
            "x = {[□](){}}",
            "x = {get [□](){}}",
            "x = {async [□](){}}",
            "class A { [□](){} }",
            "class A { static async *[□](){} }",
            "class A extends (□) {}",
            "x = {a: □}",
        ],
        b"ff" => &[
            "□",
            "function* g(){ □ }",
            "async function g(){ □ }",
            "async function* g(){ □ }",
            "x = async () => { □ }",
            "class B { m(){ □ } }",
        ],
        b"kwo" => &[
            "in",
            "instanceof",
            " in",
            " instanceof",
            "\nin",
            "/**/in",
            "of",
            "n",
            "else",
            "i\\u006e",
            "\\u0069n",
            "$in",
            ".in",
            "=in",
            "_",
        ],
        b"aw" => &[
            "await",
            "function(a = await){}",
            "function await(){}",
            "(await) => 1",
            "await => 1",
            "function(){ await }",
            "async function(){ await a }",
            "async () => await a",
            "class { [await](){} }",
            "{await}",
            "{await: a}",
            "{a: await}",
            "[await]",
            "`${await}`",
            "b(await)",
            "{m(await){}}",
            "{m(){ await }}",
            "{get [await](){}}",
            "function(b, c = await){}, d",
            "(a, await)",
            "await a",
            "yield",
            "{a = await}",
            "async await => 1",
            "async (await) => 1",
            "a => await",
            "() => { await }",
            "await.b",
            "new await",
            "typeof await",
        ],
        b"ar" => &[
            "",
            " => 1",
            " => {}",
            "\n=> 1",
            " + 1",
            ".b",
        ],
        b"sur" => &[
            "0041",
            "d7ff",
            "d800",
            "d801",
            "dabc",
            "dbff",
            "dc00",
            "dcba",
            "dfff",
            "e000",
            "DBFF",
            "{d800}",
            "{00dbff}",
            "{dc00}",
            "{10000}",
            "{10FFFF}",
            "{110000}",
            "d80",
            "{d800",
            "xd800",
        ],
        b"vk" => &[
            "var",
            "let",
            "const",
        ],
        b"yar" => &[
            "yield a",
            "await a",
            "return a",
            "yield: ;",
            "a in b",
            "await: ;",
            "break",
        ],
        b"sin" => &[
            "var a = b in c",
            "let a = b in c",
            "const a = b in c",
            "a in b",
            "return a in b",
            "if (a in b) c",
            "throw a in b",
            "switch (a in b) { case c in d: }",
            "for (a in b in c) ;",
            "while (a in b) ;",
            "x = [a in b]",
            "f(a in b)",
            "var {a = b in c} = d",
            "class A extends (a in b) { [a in b](){} }",
            "function g(a = b in c){}",
            "yield a in b",
            "await a in b",
            "a ? b in c : d in e",
            "a[b in c]",
            "new A(b in c)",
            "a => b in c",
            "({a: b in c, [d in e]: 1})",
            "do ; while (a in b)",
            "var a, b = c in d",
            "for (;a in b;c in d) ;",
            "for (var a of b in c) ;",
            "`${a in b}`",
            "with (a in b) ;",
            "try { a in b } catch ({a = b in c}) {}",
            "a = b in c",
        ],
        b"fx" => &[
            "function(){ □ }",
            "() => { □ }",
            "async function(){ □ }",
            "class { m(){ □ } }",
            "{m(){ □ }}",
            "{get a(){ □ }}",
            "x => { □ }",
            "function*(){ □ }",
            "(a = function(){ □ }) => b",
            "class extends function(){ □ } {}",
            "async () => { □ }",
            "[function(){ □ }]",
            "f(() => { □ })",
            "class { static set a(b){ □ } }",
        ],
        b"slip" => &[
            "return",
            "return a",
            "break",
            "continue",
            "break a",
            "throw\na",
            "switch (a) { default: default: }",
            "switch (a) { default: ; case b: default: ; }",
            "var [a];",
            "let {a};",
            "const a;",
            "const a = 1, b;",
            "var a, [b];",
            "if (a) function* f() {}",
            "a: function* f() {}",
            "function () {}",
            "function* () {}",
            "async function () {}",
            "1 = a",
            "a() = b",
            "a + b = c",
            "(a, b) = c",
            "({}) = a",
            "[a] += b",
            "++1",
            "--a()",
            "++a++",
            "1++",
            "a()--",
            "a => b = c",
            "for (1 of a) ;",
            "for (a() in b) ;",
            "for (a + b of c) ;",
            "for (let [a]; ; ) ;",
            "for (const a; ; ) ;",
            "class A { static prototype() {} }",
            "class A { static get 'prototype'() {} }",
            "while (a) continue",
            "for (;;) break",
            "with (a) b",
            "if (a) function f() {}",
            "a: function f() {}",
            "while (a) function f() {}",
            "static",
            "a = public",
            "private: ;",
            "let interface",
            "let",
            "++package",
            "protected = 1",
        ],
        b"mid" => &[
            "a",
            "1",
            "a.b",
            "a[b]",
            "a()",
            "(a)",
            "(a.b)",
            "[a]",
            "{}",
            "(a, b)",
            "a + b",
            "!a",
            "new a",
            "new a()",
            "this",
            "`a`",
            "a ? b : c",
            "(a = b)",
            "function(){}",
            "class {}",
            "/a/",
            "'a'",
            "null",
            "new.target",
            "(a + b)",
            "super.a",
            "import.meta",
            "((a))",
            "([a])",
            "({})",
            "await a",
            "yield",
            "typeof a",
            "a.b()",
            "a().b",
            "(a()).b",
            "async",
            "of",
            "static",
        ],
        b"jmp" => &[
            "break",
            "continue",
        ],
        b"pid" => &[
            "st\\u0061tic",
            "static",
            "statics",
            "stati",
            "let",
            "l\\u0065t",
            "private",
            "publi\\u{63}",
            "public",
            "interface",
            "package",
            "protected",
            "implements",
            "implement",
            "implements1",
        ],
        // where a pattern stands
        b"dc" => &[
            "var □ = x",
            "let □ = x",
            "const □ = x",
            "var □",
            "for (var □ of x) ;",
            "for (let □ in x) ;",
            "for (const □ of x) ;",
            "for (var □ = x;;) ;",
            "function f(□){}",
            "function f(a, □ = 1){}",
            "function f(...□){}",
            "(□) => 1",
            "(a, □) => 1",
            "(a, ...□) => 1",
            "(□ = x) => 1",
            "async (□) => 1",
            "async (a, □ = b) => 1",
            "async (...□) => 1",
            "try {} catch (□) {}",
            "({m(□){}})",
            "({set m(□){}})",
            "class A { constructor(□){} }",
            "□ = x",
            "(□ = x)",
            "x = □ = y",
            "for (□ of x) ;",
            "for (□ in x) ;",
            "for (□ = x;;) ;",
            "for (x = □ = y;;) ;",
            "[□] = x",
            "({a: □} = x)",
            "f(□ = x)",
            "function* g(□){}",
            "async function f(□){}",
            "(□)",
            "f(□)",
            "var a, □ = x",
            "let [a] = b, □ = x",
            "'use strict'; var □ = x",
            "'use strict'; □ = x",
            "'use strict'; (□) => 1",
            "a ? □ = x : b",
            "function* g(){ □ = x }",
            "async function f(){ (□) => 1 }",
            "x = □",
            "□ => 1",
            "async(□)",
            "`${□ = x}`",
        ],
        // a pattern around a pattern
        b"pn" => &[
            "□",
            "[□]",
            "{a: □}",
            "[...□]",
            "{...□}",
            "[a, □]",
            "{a, b: □}",
            "[□ = 1]",
            "{a: □ = 1}",
            "{[a]: □}",
            "{a = 1, [b]: □}",
            "[[□]]",
            "{a: {b: □}}",
            "[, □, ]",
            "{'a': □, ...b}",
            "[□, ...b]",
            "{1: □, a}",
            "{if: □}",
        ],
        // where an assignment target stands
        b"tc" => &[
            "□ = 1",
            "□ += 1",
            "□ **= 1",
            "□++",
            "--□",
            "[□] = x",
            "({a: □} = x)",
            "for (□ of x) ;",
            "for (□ in x) ;",
            "[...□] = x",
            "({...□} = x)",
            "[□ = 1] = x",
            "({a: □ = 1} = x)",
            "[[□]] = x",
            "x = □ = 1",
            "f(□ = 1)",
            "x = [□ = 1]",
            "x = {a: □ = 1}",
            "(□ = 1)",
            "(□)++",
            "++(□)",
            "a ? □ = 1 : b",
            "for (□ = 1;;) ;",
            "for (x = □++;;) ;",
            "async function f(){ □ = 1 }",
            "function* g(){ yield □ = 1 }",
            "() => □ = 1",
            "`${□ = 1}`",
            "-□++",
            "typeof □--",
            "x, □ -= y",
            "'use strict'; □ = 1",
            "'use strict'; □++",
            "'use strict'; [□] = x",
            "class A extends B { m(){ □ = 1 } }",
            "class A { constructor(){ □++ } }",
            "function f(){ □ >>>= 1 }",
            "x = y = □ = z",
            "for ([□] of x) ;",
            "for ({a: □} in x) ;",
            "a, □ = 1",
            "delete □",
            "□\n++\nb",
            "throw □ = 1",
            "if (□ = 1) ;",
            "[x[□]] = y",
        ],
        // around a target
        b"tw" => &[
            "□",
            "(□)",
            "((□))",
            "(a, □)",
            "□.b",
            "□[0]",
            "□()",
            "new □",
            "[□]",
            "{□}",
            "...□",
            "a.b.□",
            "await □",
            "□`x`",
            "□, b",
            "{a: □}",
            "(a).□",
            "□ = b",
        ],
        // where parameters stand
        b"fc" => &[
            "function f(□){}",
            "function* f(□){}",
            "async function f(□){}",
            "async function* f(□){}",
            "x = function(□){}",
            "x = function g(□){}",
            "x = function* (□){}",
            "x = async function(□){}",
            "x = async function* g(□){}",
            "(□) => {}",
            "async (□) => {}",
            "x = {m(□){}}",
            "x = {*m(□){}}",
            "x = {async m(□){}}",
            "x = {async *m(□){}}",
            "x = {get m(□){}}",
            "x = {set m(□){}}",
            "x = {'a'(□){}}",
            "x = {[a](□){}}",
            "class A { m(□){} }",
            "class A { *m(□){} }",
            "class A { async m(□){} }",
            "class A { async *m(□){} }",
            "class A { static m(□){} }",
            "class A { static *m(□){} }",
            "class A { static async m(□){} }",
            "class A { constructor(□){} }",
            "class A { get m(□){} }",
            "class A { set m(□){} }",
            "class A { static set m(□){} }",
            "x = class { [a](□){} }",
            "(function(□){})()",
            "function* g(){ (□) => {} }",
            "function* g(){ function f(□){} }",
            "function* g(){ x = function(□){} }",
            "function* g(){ x = {m(□){}} }",
            "async function f(){ (□) => {} }",
            "async function f(){ async (□) => {} }",
            "async function f(){ function g(□){} }",
            "async function f(){ x = {m(□){}} }",
            "for (x = function(□){};;) ;",
            "for (x = (□) => {};;) ;",
            "for (x = {m(□){}};;) ;",
            "for (x = class { m(□){} };;) ;",
            "while (a) { x = function(□){} }",
            "'use strict'; function f(□){}",
            "'use strict'; (□) => {}",
            "function f(a, □){}",
            "function f(□, b){}",
            "(□, b) => {}",
            "function f(□){ 'use strict' }",
            "async (a, □) => {}",
            "`${(□) => {}}`",
            "x = {m(a, □){}}",
        ],
        // complete statements that make a parser change its state
        b"un2" => &[
            "x = class A {}",
            "x = class {}",
            "x = class A extends B {}",
            "class A { m(){} }",
            "x = class { static async *m(){} }",
            "function f(){ 'use strict' }",
            "x = function f(){ 'use strict' }",
            "x = () => { 'use strict' }",
            "x = {m(){ 'use strict' }}",
            "x = {get a(){ 'use strict' }}",
            "(function(){ return })",
            "function* f(){ yield }",
            "async function f(){ await a }",
            "x = async () => await a",
            "x = {*a(){ yield }}",
            "x = {async a(){ await b }}",
            "for (;;) break",
            "while (a) continue",
            "do break; while (a)",
            "for (a of b) ;",
            "for (a in b) break",
            "for (var a of b) { continue }",
            "l: while (a) break l",
            "l: for (;;) continue l",
            "switch (a) { case 1: break; default: }",
            "switch (a) { default: break }",
            "switch (a) { case 1: switch (b) { default: } break }",
            "for (x = (a in b);;) ;",
            "for (x = [a in b];;) ;",
            "for (x = `${a in b}`;;) ;",
            "for (x = function(){ a in b };;) ;",
            "l: ;",
            "{ l: { break l } }",
            "x = `a${`b${{}}`}`",
            "x = /[/]/g",
            "({a = 1} = b)",
            "({a = 1}) => b",
            "[{a = 1}] = b",
            "async (a = 1) => b",
            "x = a => b",
            "function f(a = 1, ...b){}",
            "class A extends B { constructor(){ super() } }",
            "x = {m(){ super.a }}",
            "function f(){ new.target }",
            "'use strict'",
            "try {} catch { }",
            "try {} catch (e) {}",
            "with (a) b",
            "if (a) b; else c",
            "a: b: c",
            "x = function*(){}",
            "x = a ? b : c",
            "var {a = 1, ...b} = c",
            "for (let [a, b] of c) ;",
            "class A { static a(){} get b(){} }",
            "let a = function(){ while (a) {} }",
            "x = {a, b(){}, [c]: d}",
            "a\n++b",
            "throw a",
            "debugger",
        ],
        // a small choice of expressions
        b"ax" => &[
            "a in b",
            "a",
            "a ? b in c : d",
            "a = b in c",
            "a => b",
            "a, b",
            "yield",
            "await a",
            "...a",
            "a instanceof b",
            "{a = 1}",
            "/a/g",
            "a = 1",
            "new.target",
            "super.a",
            "({a: 1})",
            "return",
            "async a => b",
            "[a] = b",
            "(a, b) => {}",
            "`x${a}`",
            "!a in b",
            "",
        ],
        // method names
        b"key" => &[
            "a",
            "'a'",
            "1",
            "[a]",
            "if",
            "constructor",
            "prototype",
            "get",
            "set",
            "static",
            "async",
            "'constructor'",
            "\"prototype\"",
            "[constructor]",
            "await",
            "yield",
            "null",
            "\\u0061",
            "eval",
        ],
        // parameter lists
        b"pars" => &[
            "()",
            "(a)",
            "(a, b)",
            "(...a)",
            "([a])",
            "(a = 1)",
            "(a,)",
            "({a})",
        ],
        // modifiers
        b"stat" => &[
            "",
            "static",
            "get",
            "set",
            "async",
            "static get",
            "static set",
            "static async",
            "*",
            "async *",
            "static *",
            "static async *",
            "get static",
            "async get",
            "get async",
            "set *",
        ],
        // parts of a switch
        // what may follow a punctuator
        b"nxt" => &[
            "b", "/b/", "'b'", "`b`", "1", ".5", "(b)", "[b]", "{b}", "!b", "-b", "+b", "++b", "//b\n", "/*b*/c", "",
            "=b", ">b", "\n", "...b", "\\u0062", "$", "_", "/=/", "*/b/", "\"\"",
        ],
        b"cs" => &[
            "case a:",
            "default:",
            "case a: b;",
            "default: b;",
            "break;",
            "",
            "case a, b:",
            "case a: case b:",
            "default",
            "case:",
            "case a: break; default:",
            "case (a): { }",
            "case a: default: case b:",
        ],
        // what begins a declaration
        b"kind" => &[
            "function",
            "function*",
            "async function",
            "async function*",
            "class",
            "async",
            "get",
            "let",
            "var",
            "x = function",
            "x = async function*",
            "x = class",
            "export default function",
        ],
        b"open" => &["(", "[", "f(", "{a:", "a=>(", "!(", "`${", "[...", "x=[", "function(){(", "new (", "async(", "(a,"],
        b"open1" => &["(", "[", "({a:", "`${", "f(", "a[", "(()=>("],
        b"close1" => &[")", "]", "})", "}`", ")", "]", "))"],
        b"off" => &[
            ")", "]", "}", "enum", "case", "default", "finally", "extends", "...", "=>",
        ],
        b"pre" => &[
            "a", "a;", "var b='x\\\ny';", "`x\ny`;", "`x\r\ny${\n1\n}`;", "/*\n\n*/", "//x", "/* \r\n \r */", "'\\\r\n';",
            "`\r`;", "'\u{2028}';", "if(a)\n\nb", "/r/g;", "f(\n)", "()=>{}", "class A{}", "x={\r\n}", "`\u{2029}`",
            "'\\\u{2028}'", "\n", "\r\n", "\r", "\u{2028}", "var \u{1d4d0}", "'\u{1F600}'", "/*\u{1F600}*/", "a++", "1",
            "/[/]/", "\t", "\u{feff}a", "",
        ],
        _ => &[],
    }
}

macro_rules! t {
    ($p:literal $m:literal $t:literal $s:expr) => {
        T { p: $p, m: $m, t: $t, s: $s }
    };
}

pub static T: &[T] = &[
    // C02: punctuators
    t!("C01" 0 0 "⟨!r0#1⟩⟨{300⟩⟨!r1#1⟩⟨}⟩⟨!r2#1⟩"),
    t!("C01" 0 0 "⟨!r0#1⟩⟨{40⟩⟨!r1#1⟩⟨}⟩⟨!r2#1⟩ ⟨tok⟩"),
    t!("C01" 0 0 "⟨!r0#1⟩⟨{300⟩⟨!r1#1⟩⟨}⟩"),
    t!("C01" 0 0 "function f() { ⟨!r0#1⟩⟨{40⟩⟨!r1#1⟩⟨}⟩⟨!r2#1⟩\n}"),
    t!("C02" 0 0 "a ⟨pc⟩⟨pc⟩⟨pc⟩ b"),
    t!("C02" 0 0 "a⟨punct⟩b"),
    t!("C02" 0 0 "(a⟨punct⟩b)"),
    t!("C02" 0 0 "a ⟨op⟩⟨op⟩⟨op⟩⟨op⟩⟨op⟩ b"),
    t!("C02" 0 0 "a⟨punct⟩⟨punct⟩b"),
    t!("C02" 0 0 "x = [⟨pc⟩⟨pc⟩⟨pc⟩a]"),
    t!("C02" 0 1 "a⟨pc⟩⟨pc⟩⟨pc⟩⟨pc⟩b"),
    t!("C02" 0 1 "a ⟨op⟩⟨op⟩⟨op⟩⟨op⟩⟨op⟩⟨op⟩ b"),
    t!("C02" 0 0 "a⟨punct⟩⟨!nxt⟩"),
    t!("C02" 0 0 "a⟨!punct⟩⟨!nxt⟩"),
    t!("C02" 0 0 "(⟨!punct⟩⟨!nxt⟩)"),
    t!("C02" 0 0 "x = a ⟨!punct⟩⟨!punct⟩⟨!nxt⟩"),
    t!("C02" 0 0 "{⟨pc⟩⟨pc⟩a⟨pc⟩⟨pc⟩}"),
    t!("C02" 0 1 "⟨pc⟩⟨pc⟩a⟨pc⟩⟨pc⟩b⟨pc⟩"),
    // C03: identifiers and reserved words
    t!("C03" 0 0 "⟨c⟩⟨c⟩"),
    t!("C03" 0 0 "var a⟨c⟩⟨c⟩b"),
    t!("C03" 0 0 "⟨w⟩"),
    t!("C03" 0 0 "a⟨w⟩"),
    t!("C03" 0 0 "a.⟨v⟩b"),
    t!("C03" 0 1 "a.⟨w⟩b"),
    t!("C03" 0 0 "\\u⟨!h16⟩⟨!hx⟩⟨!h16⟩⟨hex⟩"),
    t!("C03" 0 0 "a\\u⟨!hx⟩⟨!hx⟩⟨!hx⟩⟨hex⟩"),
    t!("C03" 0 0 "a\\u{⟨!hex⟩⟨!hex⟩⟨hex⟩"),
    t!("C03" 0 0 "\\u{⟨!hx⟩⟨!hx⟩⟨!hx⟩⟨!hx⟩⟨hx⟩}"),
    t!("C03" 2 0 "⟨kw⟩"),
    t!("C03" 2 0 "var ⟨kw⟩ = 1"),
    t!("C03" 2 0 "x.⟨kw⟩"),
    t!("C03" 2 0 "x = {⟨kw⟩: 1}"),
    t!("C03" 2 0 "x = {⟨kw⟩}"),
    t!("C03" 2 0 "function ⟨kw⟩(){}"),
    t!("C03" 2 0 "x = function ⟨kw⟩(){}"),
    t!("C03" 2 0 "⟨kw⟩: ;"),
    t!("C03" 2 0 "x = ⟨kw⟩;"),
    t!("C03" 2 0 "class ⟨kw⟩ {}"),
    t!("C03" 2 0 "class A { ⟨kw⟩(){} }"),
    t!("C03" 2 0 "function f(⟨kw⟩){}"),
    t!("C03" 2 0 "⟨kw⟩ => 1"),
    t!("C03" 2 0 "(⟨kw⟩) => 1"),
    t!("C03" 2 0 "try {} catch (⟨kw⟩) {}"),
    t!("C03" 2 0 "let {⟨kw⟩} = x"),
    t!("C03" 2 0 "({⟨kw⟩} = x)"),
    t!("C03" 0 0 "'use strict'; var ⟨kw⟩"),
    t!("C03" 0 0 "'use strict'; x = ⟨kw⟩"),
    t!("C03" 0 0 "function* g(){ var ⟨kw⟩ }"),
    t!("C03" 0 0 "async function f(){ var ⟨kw⟩ }"),
    t!("C03" 1 0 "import ⟨kw⟩ from 'x'"),
    t!("C03" 1 0 "import {⟨kw⟩ as ⟨kw⟩} from 'x'"),
    t!("C03" 1 0 "export {⟨kw⟩ as ⟨kw⟩} from 'x'"),
    t!("C03" 2 0 "⟨!esckw⟩"),
    t!("C03" 2 0 "⟨!esckw⟩ (a)"),
    t!("C03" 2 0 "var ⟨!esckw⟩"),
    t!("C03" 2 0 "x.⟨!esckw⟩"),
    t!("C03" 2 0 "x = {⟨!esckw⟩: 1}"),
    t!("C03" 2 0 "x = {⟨!esckw⟩ a(){}}"),
    t!("C03" 2 0 "class A { ⟨!esckw⟩ a(){} }"),
    t!("C03" 2 0 "class A { ⟨!esckw⟩(){} }"),
    t!("C03" 2 0 "x = {⟨!esckw⟩}"),
    t!("C03" 2 0 "for (a ⟨!esckw⟩ b);"),
    t!("C03" 2 0 "a ⟨!esckw⟩ b"),
    t!("C03" 2 0 "⟨!esckw⟩ function f(){}"),
    t!("C03" 2 0 "function f(){ new.⟨!esckw⟩ }"),
    t!("C03" 1 0 "import a ⟨!esckw⟩ 'x'"),
    t!("C03" 1 0 "import {a ⟨!esckw⟩ b} from 'x'"),
    t!("C03" 0 0 "function* g(){ ⟨!esckw⟩ }"),
    t!("C03" 0 0 "async function f(){ ⟨!esckw⟩ a }"),
    t!("C03" 2 1 "⟨c⟩⟨c⟩⟨c⟩"),
    t!("C03" 0 1 "⟨v⟩⟨v⟩"),
    t!("C03" 0 1 "\\u{⟨!hex⟩⟨!hex⟩⟨!hex⟩⟨!hex⟩⟨hex⟩"),
    t!("C03" 0 1 "\\u⟨!hex⟩⟨!hex⟩⟨!hex⟩⟨hex⟩"),
    t!("C03" 0 1 "a\\u⟨!hex⟩⟨!hex⟩⟨!hex⟩⟨hex⟩"),
    // C04: white space, line terminators, comments
    t!("C04" 0 0 "a⟨w⟩b"),
    t!("C04" 0 0 "var⟨c⟩⟨c⟩a"),
    t!("C04" 2 0 "⟨ws⟩var⟨ws⟩a⟨ws⟩"),
    t!("C04" 2 0 "a⟨ws⟩++⟨ws⟩b"),
    t!("C04" 0 0 "function⟨ws⟩f(a⟨ws⟩){⟨ws1⟩return⟨ws⟩a}"),
    t!("C04" 0 0 "x = {⟨ws1⟩get⟨ws1⟩a⟨ws1⟩(⟨ws1⟩)⟨ws1⟩{}}"),
    t!("C04" 0 0 "for⟨ws1⟩(⟨ws1⟩let⟨ws1⟩a⟨ws1⟩of⟨ws1⟩b);"),
    t!("C04" 1 0 "import⟨ws1⟩{a⟨ws1⟩as⟨ws1⟩b}⟨ws1⟩from⟨ws1⟩'x'"),
    t!("C04" 0 0 "/*⟨cm⟩⟨cm⟩⟨cm⟩⟨cm⟩*/a"),
    t!("C04" 0 0 "a/*⟨c⟩⟨c⟩*/b"),
    t!("C04" 0 0 "//⟨c⟩⟨c⟩a"),
    t!("C04" 0 0 "/*⟨v⟩*/a"),
    t!("C04" 0 1 "/*⟨w⟩*/a"),
    t!("C04" 0 0 "a//⟨v⟩b"),
    t!("C04" 0 1 "a//⟨w⟩b"),
    t!("C04" 0 0 "a⟨cm⟩⟨cm⟩⟨cm⟩⟨cm⟩⟨cm⟩b"),
    t!("C04" 0 0 "async⟨ws1⟩function⟨ws1⟩*⟨ws1⟩f(){}"),
    t!("C04" 0 0 "a⟨ws1⟩?⟨ws1⟩b⟨ws1⟩:⟨ws1⟩c"),
    t!("C04" 0 0 "a⟨ws⟩=>⟨ws⟩b"),
    t!("C04" 0 0 "a⟨ws⟩.⟨ws⟩b⟨ws⟩`x`"),
    t!("C04" 0 1 "//⟨v⟩⟨v⟩a"),
    t!("C04" 0 1 "a⟨cm⟩⟨cm⟩⟨cm⟩⟨cm⟩⟨cm⟩⟨cm⟩b"),
    t!("C04" 0 1 "class⟨ws1⟩A⟨ws1⟩extends⟨ws1⟩B⟨ws1⟩{⟨ws1⟩static⟨ws1⟩a(){}}"),
    // C05: string literals
    t!("C05" 0 0 "'⟨c⟩⟨c⟩'"),
    t!("C05" 0 0 "x = \"⟨str⟩⟨str⟩⟨str⟩\""),
    t!("C05" 0 0 "x = '\\⟨esc⟩⟨esc⟩⟨esc⟩'"),
    t!("C05" 0 0 "x = '\\⟨c⟩⟨c⟩'"),
    t!("C05" 0 0 "x = '\\⟨o⟩⟨o⟩⟨o⟩⟨o⟩'"),
    t!("C05" 0 0 "x = '\\u⟨!hx⟩⟨!hx⟩⟨!hx⟩⟨hx⟩'"),
    t!("C05" 0 0 "x = '\\u⟨c⟩⟨c⟩e9'"),
    t!("C05" 0 0 "x = '\\x⟨hex⟩⟨hex⟩⟨hx⟩'"),
    t!("C05" 0 0 "x = '\\u{⟨hex⟩⟨hex⟩⟨hex⟩'"),
    t!("C05" 0 0 "x = '\\u{⟨!hx⟩⟨!hx⟩⟨!hx⟩⟨!hx⟩⟨hx⟩}'"),
    t!("C05" 0 0 "x = '\\u{1⟨!hx⟩⟨!hx⟩0⟨!hx⟩⟨hx⟩}'"),
    t!("C05" 0 0 "x = '⟨w⟩'"),
    t!("C05" 0 0 "x = '\\⟨v⟩'"),
    t!("C05" 0 1 "x = '\\⟨w⟩'"),
    t!("C05" 0 0 "x = 'a\\⟨!lt⟩b'"),
    t!("C05" 0 0 "x = 'a⟨!lt⟩b'"),
    t!("C05" 0 0 "⟨quote⟩a⟨quote⟩b⟨quote⟩"),
    t!("C05" 0 0 "x = {'\\⟨esc⟩a': 1}"),
    t!("C05" 0 1 "x = '⟨str⟩⟨str⟩⟨str⟩⟨str⟩'"),
    t!("C05" 0 1 "x = '\\⟨esc⟩⟨esc⟩⟨esc⟩⟨esc⟩'"),
    t!("C05" 0 1 "x = '\\u⟨!hex⟩⟨!hex⟩⟨!hex⟩⟨hex⟩'"),
    t!("C05" 0 1 "x = '⟨v⟩⟨v⟩'"),
    t!("C05" 0 0 "x = '\\u⟨!sur⟩\\u⟨!sur⟩'"),
    t!("C05" 0 0 "x = '\\u⟨!sur⟩\\u⟨!sur⟩\\u⟨!sur⟩'"),
    t!("C05" 0 0 "x = '\\u⟨!sur⟩⟨c⟩\\udc00'"),
    t!("C05" 0 0 "x = '\\ud83d\\ude⟨h16⟩⟨h16⟩'"),
    t!("C05" 0 0 "x = '\\ud8⟨h16⟩⟨h16⟩\\udc00'"),
    // C06: template literals
    t!("C06" 0 0 "`⟨c⟩⟨c⟩`"),
    t!("C06" 0 0 "`⟨tm⟩⟨tm⟩⟨tm⟩⟨tm⟩`"),
    t!("C06" 0 0 "`\\⟨c⟩⟨c⟩`"),
    t!("C06" 0 0 "`\\u{⟨hx⟩⟨hex⟩⟨hex⟩`"),
    t!("C06" 0 0 "`\\x⟨hex⟩⟨hex⟩`"),
    t!("C06" 0 0 "`\\u00⟨hex⟩⟨hex⟩`"),
    t!("C06" 0 0 "`⟨w⟩`"),
    t!("C06" 0 0 "`\\⟨v⟩`"),
    t!("C06" 0 1 "`\\⟨w⟩`"),
    t!("C06" 0 0 "`a⟨!lt⟩b\\⟨!lt⟩c`"),
    t!("C06" 0 0 "`a${ ⟨ex⟩ }b${ ⟨ex⟩ }c`"),
    t!("C06" 0 0 "`${ ⟨tok⟩ ⟨tok⟩ }`"),
    t!("C06" 0 0 "`a${`b${ ⟨ex⟩ }c`}d⟨tm⟩`"),
    t!("C06" 0 0 "`${{⟨pr⟩}}⟨tm⟩⟨tm⟩`"),
    t!("C06" 0 0 "x = `${a}⟨tm⟩⟨tm⟩⟨tm⟩`"),
    t!("C06" 0 0 "⟨hd2⟩`⟨tm⟩⟨tm⟩`"),
    t!("C06" 0 0 "⟨hd2⟩`a${ ⟨ex⟩ }b`"),
    t!("C06" 0 0 "a`b`⟨tail⟩⟨tail⟩"),
    t!("C06" 0 0 "`${ ()=>{ ⟨st⟩ } }`"),
    t!("C06" 0 0 "{ `${ {a:{}} }` } /⟨tm⟩/"),
    t!("C06" 0 1 "`⟨tm⟩⟨tm⟩⟨tm⟩⟨tm⟩⟨tm⟩`"),
    t!("C06" 0 1 "`${ ⟨tok⟩ ⟨tok⟩ ⟨tok⟩ }`"),
    t!("C06" 0 1 "`⟨tm⟩⟨tm⟩${a}⟨tm⟩⟨tm⟩`"),
    t!("C06" 0 0 "⟨!hc<#1⟩`a${ ⟨ax⟩ }b`⟨!hc>#1⟩"),
    t!("C06" 0 0 "⟨!es<#1⟩`a${⟨!es<#2⟩b⟨!es>#2⟩}c⟨tm⟩`⟨!es>#1⟩"),
    t!("C06" 0 0 "`${ () => { ⟨!sc<#1⟩a⟨!sc>#1⟩ } }⟨tm⟩⟨tm⟩`"),
    t!("C06" 0 0 "`\\u⟨!sur⟩\\u⟨!sur⟩`"),
    t!("C06" 0 0 "a`\\u⟨!sur⟩⟨tm⟩\\u⟨!sur⟩`"),
    // C07: numeric literals
    t!("C07" 0 0 "x = ⟨num⟩⟨num⟩⟨num⟩"),
    t!("C07" 0 0 "x = ⟨d⟩⟨num⟩⟨num⟩⟨d⟩"),
    t!("C07" 0 0 "x = 0⟨nx⟩⟨nx⟩⟨nx⟩"),
    t!("C07" 0 0 "x = ⟨d⟩⟨d⟩⟨d⟩⟨d⟩"),
    t!("C07" 0 0 "x = .⟨!d⟩⟨!d⟩e⟨!d⟩⟨d⟩"),
    t!("C07" 0 0 "x = ⟨d⟩.⟨d⟩e-⟨d⟩⟨d⟩"),
    t!("C07" 0 0 "x = 0x⟨hex⟩⟨hex⟩⟨hex⟩"),
    t!("C07" 0 0 "x = 0o⟨hex⟩⟨hex⟩⟨hex⟩"),
    t!("C07" 0 0 "x = 0b⟨hex⟩⟨hex⟩⟨hex⟩⟨hex⟩"),
    t!("C07" 0 0 "x = 1⟨c⟩⟨c⟩"),
    t!("C07" 0 0 "x = 0⟨c⟩⟨c⟩"),
    t!("C07" 0 0 "x = 0x1⟨v⟩"),
    t!("C07" 0 1 "x = 0x1⟨w⟩"),
    t!("C07" 0 0 "x = 1.5⟨v⟩"),
    t!("C07" 0 1 "x = 1.5⟨w⟩"),
    t!("C07" 0 0 "x = 0xffffffffffff⟨hx⟩⟨hx⟩⟨hx⟩"),
    t!("C07" 0 0 "x = 0b1111111111111111111111111111111111111111111111111111⟨hx⟩⟨hx⟩⟨hx⟩"),
    t!("C07" 0 0 "x = 01⟨nx⟩⟨nx⟩⟨nx⟩"),
    t!("C07" 0 0 "x = 09⟨nx⟩⟨nx⟩"),
    t!("C07" 0 0 "x = 179769313486231570000000000⟨d⟩e⟨d⟩8⟨d⟩"),
    t!("C07" 0 0 "x = {⟨d⟩⟨nx⟩⟨nx⟩: 1}"),
    t!("C07" 0 1 "x = ⟨num⟩⟨num⟩⟨num⟩⟨num⟩"),
    t!("C07" 0 1 "x = 0⟨nx⟩⟨nx⟩⟨nx⟩⟨nx⟩"),
    t!("C07" 0 1 "x = 1⟨nx⟩⟨nx⟩⟨nx⟩⟨nx⟩"),
    t!("C07" 0 1 "x = 90071992547409⟨d⟩⟨d⟩⟨d⟩"),
    t!("C07" 0 0 "x = ⟨lit⟩⟨kwo⟩ y"),
    t!("C07" 0 0 "if (a) ⟨lit⟩⟨kwo⟩ ;"),
    t!("C07" 0 0 "case0: ⟨d⟩⟨d⟩⟨kwo⟩ y"),
    t!("C07" 0 0 "x = 0x1⟨hx⟩000000000000⟨hx⟩000⟨hx⟩"),
    t!("C07" 0 0 "x = 0x1⟨hx⟩000000000000800000⟨hx⟩⟨hx⟩"),
    t!("C07" 0 0 "x = 0x1⟨h16⟩00000000000⟨h16⟩⟨h16⟩"),
    t!("C07" 0 0 "x = 0o4⟨o⟩00000000000000000⟨o⟩⟨o⟩00⟨o⟩"),
    t!("C07" 0 0 "x = 0b1111111111111111111111111111111111111111111111111111⟨hx⟩⟨hx⟩⟨hx⟩0000000000000⟨hx⟩"),
    t!("C07" 0 0 "x = 04⟨o⟩000000000000000⟨o⟩⟨o⟩00⟨o⟩⟨o⟩"),
    t!("C07" 0 0 "x = 0xfffffffffffff⟨h16⟩⟨h16⟩⟨h16⟩"),
    // C08: regular expression or division
    t!("C08" 0 0 "x = /⟨re⟩⟨re⟩⟨re⟩⟨re⟩/g"),
    t!("C08" 0 0 "x = /⟨c⟩⟨c⟩/"),
    t!("C08" 0 0 "x = /\\⟨c⟩⟨c⟩/"),
    t!("C08" 0 0 "x = /[⟨re⟩⟨re⟩⟨re⟩]/"),
    t!("C08" 0 0 "x = /⟨v⟩/"),
    t!("C08" 0 1 "x = /⟨w⟩/"),
    t!("C08" 0 0 "x = /\\⟨v⟩/"),
    t!("C08" 0 1 "x = /\\⟨w⟩/"),
    t!("C08" 0 0 "x = /a/⟨c⟩⟨c⟩"),
    t!("C08" 0 0 "x = /a/⟨v⟩"),
    t!("C08" 0 1 "x = /a/⟨w⟩"),
    t!("C08" 0 0 "⟨tok⟩ /b/g"),
    t!("C08" 0 0 "⟨kw⟩ /b/g"),
    t!("C08" 0 0 "x = ⟨ex⟩ /b/g"),
    t!("C08" 0 0 "x = ⟨expr⟩\n/b/g"),
    t!("C08" 0 0 "⟨stmt⟩ /b/g"),
    t!("C08" 0 0 "⟨stmt⟩\n/b/.c"),
    t!("C08" 0 0 "x = ⟨un⟩ /b/g"),
    t!("C08" 0 0 "a ⟨bin⟩ /b/ ⟨bin⟩ /c/"),
    t!("C08" 0 0 "a⟨sl⟩⟨sl⟩⟨sl⟩⟨sl⟩b"),
    t!("C08" 0 0 "x = ⟨sl⟩⟨sl⟩⟨sl⟩⟨sl⟩b"),
    t!("C08" 0 0 "⟨line⟩/=b/g"),
    t!("C08" 0 0 "a ⟨tok⟩ /b/g"),
    t!("C08" 0 0 "( ⟨tok⟩ /b/g"),
    t!("C08" 0 0 "( ⟨tok⟩ /b/g )"),
    t!("C08" 0 0 "{ ⟨tok⟩ /b/g }"),
    t!("C08" 0 0 "if (⟨ex⟩) /b/g"),
    t!("C08" 0 0 "`${ /⟨re⟩⟨re⟩/ }`"),
    t!("C08" 0 0 "function* g(){ ⟨ctx⟩ /b/g }"),
    t!("C08" 0 0 "async function f(){ ⟨ctx⟩ /b/g }"),
    t!("C08" 0 0 "x = {⟨prop⟩} /b/g"),
    t!("C08" 0 0 "class A {⟨mb⟩} /b/g"),
    t!("C08" 0 0 "x = class {⟨mb⟩} /b/g"),
    t!("C08" 0 0 "a ⟨tok⟩ ⟨tok⟩ /b/g"),
    t!("C08" 0 1 "⟨tok⟩ ⟨tok⟩ /b/g ⟨tok⟩"),
    t!("C08" 0 1 "x = /⟨re⟩⟨re⟩⟨re⟩⟨re⟩⟨re⟩/"),
    t!("C08" 0 0 "⟨!sc<#1⟩a⟨!sc>#1⟩ /b/g"),
    t!("C08" 0 0 "⟨!sc<#1⟩a⟨!sc>#1⟩\n/b/g"),
    t!("C08" 0 0 "⟨!hc<#1⟩⟨!ec<#2⟩/[/]/g⟨!ec>#2⟩⟨!hc>#1⟩"),
    t!("C08" 0 0 "⟨un2⟩ /b/g"),
    t!("C08" 0 0 "⟨!ec<#1⟩a⟨!ec>#1⟩ /b/g"),
    t!("C08" 0 0 "⟨!hc<#1⟩⟨ax⟩ /b/g⟨!hc>#1⟩"),
    t!("C08" 0 0 "⟨line⟩\n/=b/g"),
    t!("C08" 0 0 "⟨un2⟩\n/=b/g"),
    t!("C08" 0 0 "⟨stmt⟩\n/=b/g"),
    t!("C08" 0 0 "l: while (a) { ⟨ret⟩\n/=b/g }"),
    t!("C08" 0 0 "⟨line⟩\n/=⟨re⟩⟨re⟩/g"),
    t!("C08" 0 0 "var ⟨tok⟩\n/=b/g"),
    t!("C08" 0 0 "async ⟨tok⟩ /b/g"),
    t!("C08" 0 0 "x = async ⟨tok⟩ /b/g"),
    t!("C08" 0 0 "async ⟨tok⟩\n/b/g"),
    // C09: binary and logical operators
    t!("C09" 0 0 "a ⟨bin⟩ b ⟨bin⟩ c ⟨bin⟩ d"),
    t!("C09" 0 0 "x = a ⟨bin⟩ (b ⟨bin⟩ c) ⟨bin⟩ d"),
    t!("C09" 0 0 "(a ⟨bin⟩ b) ⟨bin⟩ c"),
    t!("C09" 0 0 "⟨un⟩ a ⟨bin⟩ ⟨un⟩ b"),
    t!("C09" 0 0 "⟨expr⟩ ⟨bin⟩ ⟨expr⟩"),
    t!("C09" 0 0 "x = ⟨bin⟩ ⟨bin⟩ a"),
    t!("C09" 0 0 "for (x = a ⟨bin⟩ b ⟨bin⟩ c;;);"),
    t!("C09" 0 0 "for (x = (a ⟨bin⟩ b) ? c ⟨bin⟩ d : e ⟨bin⟩ f;;);"),
    t!("C09" 0 0 "a ⟨bin⟩ b ? c ⟨bin⟩ d : e ⟨bin⟩ f"),
    t!("C09" 0 0 "a => b ⟨bin⟩ c"),
    t!("C09" 0 0 "a ⟨bin⟩ b => c"),
    t!("C09" 0 0 "a ** b ** c ⟨bin⟩ d ** e"),
    t!("C09" 0 1 "a ⟨bin⟩ b ⟨bin⟩ c ⟨bin⟩ d ⟨bin⟩ e"),
    t!("C09" 0 1 "a ⟨bin1⟩ b ⟨bin1⟩ c ⟨bin1⟩ d ⟨bin1⟩ e ⟨bin1⟩ f"),
    t!("C09" 0 1 "⟨expr⟩ ⟨bin⟩ ⟨expr⟩ ⟨bin1⟩ c"),
    t!("C09" 0 0 "⟨!hc<#1⟩a ⟨bin⟩ b ⟨bin⟩ c⟨!hc>#1⟩"),
    t!("C09" 0 0 "⟨!es<#1⟩a ⟨bin⟩ b⟨!es>#1⟩ ⟨bin⟩ c"),
    t!("C09" 0 0 "a ⟨bin⟩ ⟨!es<#1⟩b ⟨bin⟩ c⟨!es>#1⟩"),
    // C10: unary, update, conditional, assignment, sequence
    t!("C10" 0 0 "⟨un⟩ ⟨un⟩ a ⟨post⟩"),
    t!("C10" 0 0 "⟨un⟩ a ⟨post⟩ ⟨post⟩"),
    t!("C10" 0 0 "⟨un⟩ ⟨expr⟩"),
    t!("C10" 0 0 "⟨expr⟩ ⟨post⟩"),
    t!("C10" 0 0 "⟨ex⟩ ? ⟨ex⟩ : ⟨ex⟩"),
    t!("C10" 0 0 "⟨ex⟩ ⟨asg⟩ ⟨ex⟩"),
    t!("C10" 0 0 "a ⟨asg⟩ b ⟨asg⟩ c"),
    t!("C10" 0 0 "⟨ex⟩, ⟨ex⟩"),
    t!("C10" 0 0 "a ? b ⟨asg⟩ c : d ⟨asg⟩ e"),
    t!("C10" 0 0 "a ⟨opr⟩ ⟨opr⟩ b"),
    t!("C10" 0 0 "⟨opr⟩ ⟨opr⟩ ⟨opr⟩ a"),
    t!("C10" 0 0 "a ? b ? c : d : e ? f : ⟨ex⟩"),
    t!("C10" 0 0 "-⟨post⟩ ** ⟨un⟩ a"),
    t!("C10" 0 0 "⟨un⟩ a ** ⟨un⟩ b ** c"),
    t!("C10" 0 0 "(⟨un⟩ a) ** b"),
    t!("C10" 0 0 "a = ⟨ex⟩ ⟨post⟩"),
    t!("C10" 0 0 "x ⟨asg⟩ y ? ⟨ex⟩ : z ⟨asg⟩ w"),
    t!("C10" 0 1 "a ⟨opr⟩ ⟨opr⟩ ⟨opr⟩ b"),
    t!("C10" 0 1 "⟨opr⟩ ⟨opr⟩ ⟨opr⟩ ⟨opr⟩"),
    t!("C10" 0 1 "⟨ex⟩ ⟨asg⟩ ⟨ex⟩ ⟨asg⟩ ⟨ex⟩"),
    t!("C10" 0 0 "⟨!hs<#1⟩⟨ax⟩ ? ⟨ax⟩ : a ⟨opr⟩ b⟨!hs>#1⟩"),
    t!("C10" 0 0 "⟨!hc<#1⟩a ? ⟨ax⟩ : ⟨ax⟩⟨!hc>#1⟩"),
    t!("C10" 0 1 "⟨!hc<#1⟩⟨ax⟩ ? ⟨ax⟩ : ⟨ax⟩⟨!hc>#1⟩"),
    t!("C10" 0 0 "⟨!hc<#1⟩⟨!es<#2⟩⟨ax⟩⟨!es>#2⟩⟨!hc>#1⟩"),
    t!("C10" 0 1 "⟨!hc<#1⟩⟨!ec<#2⟩⟨ax⟩⟨!ec>#2⟩⟨!hc>#1⟩"),
    t!("C10" 0 0 "⟨!hc<#1⟩a ⟨asg⟩ ⟨ax⟩⟨!hc>#1⟩"),
    t!("C10" 0 0 "⟨!hc<#1⟩⟨un⟩ ⟨ax⟩⟨!hc>#1⟩"),
    t!("C10" 0 0 "⟨!es<#1⟩⟨un⟩ a ⟨opr⟩ b⟨!es>#1⟩"),
    // C11: member access, calls, new, tagged templates
    t!("C11" 0 0 "⟨hd2⟩⟨tail⟩⟨tail⟩"),
    t!("C11" 0 0 "a⟨tail⟩⟨tail⟩⟨tail⟩"),
    t!("C11" 0 0 "new a⟨tail⟩⟨tail⟩⟨tail⟩"),
    t!("C11" 0 0 "new new a⟨tail⟩⟨tail⟩"),
    t!("C11" 0 0 "f(⟨ex⟩, ⟨ex⟩)"),
    t!("C11" 0 0 "f(⟨expr⟩)"),
    t!("C11" 0 0 "new f(⟨expr⟩)"),
    t!("C11" 0 0 "a[⟨expr⟩]"),
    t!("C11" 0 0 "a.⟨kw⟩.⟨kw⟩"),
    t!("C11" 0 0 "class A extends B { constructor(){ super⟨tail⟩⟨tail⟩ } }"),
    t!("C11" 0 0 "class A extends B { m(){ ⟨hd2⟩⟨tail⟩ } }"),
    t!("C11" 0 0 "function f(){ new.target⟨tail⟩⟨tail⟩ }"),
    t!("C11" 0 0 "async⟨tail⟩⟨tail⟩"),
    t!("C11" 0 0 "⟨expr⟩⟨tail⟩"),
    t!("C11" 0 0 "f(⟨tok⟩ ⟨tok⟩)"),
    t!("C11" 0 0 "new ⟨tok⟩ ⟨tok⟩"),
    t!("C11" 0 0 "for (x = a⟨tail⟩[b in c];;);"),
    t!("C11" 0 1 "⟨hd2⟩⟨tail⟩⟨tail⟩⟨tail⟩"),
    t!("C11" 0 1 "a ⟨tok⟩ ⟨tok⟩ ⟨tok⟩"),
    t!("C11" 0 1 "f(⟨tok⟩ ⟨tok⟩ ⟨tok⟩)"),
    t!("C11" 0 0 "⟨!hc<#1⟩⟨hd2⟩⟨tail⟩⟨!hc>#1⟩"),
    t!("C11" 0 0 "⟨!es<#1⟩⟨hd2⟩⟨tail⟩⟨!es>#1⟩⟨tail⟩"),
    t!("C11" 0 0 "⟨!sc<#1⟩⟨hd2⟩⟨tail⟩⟨!sc>#1⟩"),
    t!("C11" 0 0 "⟨!hc<#1⟩a[⟨!es<#2⟩⟨ax⟩⟨!es>#2⟩](b)⟨!hc>#1⟩"),
    // C12: assignment targets
    t!("C12" 2 0 "⟨expr⟩ = 1"),
    t!("C12" 2 0 "(⟨expr⟩) = 1"),
    t!("C12" 2 0 "⟨expr⟩ += 1"),
    t!("C12" 2 0 "(⟨expr⟩) ⟨asg⟩ 1"),
    t!("C12" 2 0 "⟨expr⟩++"),
    t!("C12" 2 0 "--⟨expr⟩"),
    t!("C12" 2 0 "(⟨expr⟩)--"),
    t!("C12" 0 0 "for (⟨expr⟩ of x);"),
    t!("C12" 0 0 "for (⟨expr⟩ in x);"),
    t!("C12" 0 0 "for ((⟨expr⟩) of x);"),
    t!("C12" 2 0 "[⟨expr⟩] = x"),
    t!("C12" 2 0 "[(⟨expr⟩)] = x"),
    t!("C12" 2 0 "({a: ⟨expr⟩} = x)"),
    t!("C12" 2 0 "({a: (⟨expr⟩)} = x)"),
    t!("C12" 2 0 "[...⟨expr⟩] = x"),
    t!("C12" 2 0 "({...⟨expr⟩} = x)"),
    t!("C12" 2 0 "[⟨expr⟩ = 1] = x"),
    t!("C12" 0 0 "x = ⟨ex⟩ = ⟨ex⟩"),
    t!("C12" 0 0 "⟨word⟩ ⟨asg⟩ 1"),
    t!("C12" 0 0 "'use strict'; ⟨word⟩ ⟨asg⟩ 1"),
    t!("C12" 0 0 "'use strict'; ⟨word⟩++"),
    t!("C12" 0 0 "'use strict'; [⟨word⟩] = x"),
    t!("C12" 0 0 "'use strict'; ({⟨word⟩} = x)"),
    t!("C12" 0 0 "a ? ⟨ex⟩ = 1 : ⟨ex⟩ = 2"),
    t!("C12" 0 0 "⟨hd2⟩⟨tail⟩ = 1"),
    t!("C12" 0 0 "⟨hd2⟩⟨tail⟩++"),
    t!("C12" 0 0 "⟨un⟩ ⟨ex⟩ = 1"),
    t!("C12" 0 0 "⟨ex⟩ ⟨bin1⟩ ⟨ex⟩ = 1"),
    t!("C12" 0 0 "⟨!tc<#1⟩⟨!tw<#2⟩⟨ax⟩⟨!tw>#2⟩⟨!tc>#1⟩"),
    t!("C12" 0 0 "⟨!tc<#1⟩⟨expr⟩⟨!tc>#1⟩"),
    t!("C12" 1 0 "⟨!tc<#1⟩⟨word⟩⟨!tc>#1⟩"),
    t!("C12" 0 0 "⟨!sc<#1⟩⟨!tc<#2⟩⟨word⟩⟨!tc>#2⟩⟨!sc>#1⟩"),
    t!("C12" 0 0 "⟨!es<#1⟩⟨!tc<#2⟩a.b⟨!tc>#2⟩⟨!es>#1⟩ ⟨asg⟩ c"),
    // C13: destructuring
    t!("C13" 2 0 "var ⟨bind⟩ = x"),
    t!("C13" 0 0 "let ⟨bind⟩ = x"),
    t!("C13" 0 0 "const ⟨bind⟩ = x"),
    t!("C13" 0 0 "var ⟨bind⟩"),
    t!("C13" 2 0 "⟨bind⟩ = x"),
    t!("C13" 2 0 "(⟨bind⟩ = x)"),
    t!("C13" 2 0 "(⟨bind⟩)"),
    t!("C13" 0 0 "x = ⟨bind⟩"),
    t!("C13" 0 0 "[⟨bd⟩, ⟨bd⟩] = x"),
    t!("C13" 0 0 "({a: ⟨bind⟩} = x)"),
    t!("C13" 0 0 "({a: ⟨bd⟩, b: ⟨bd⟩} = x)"),
    t!("C13" 0 0 "({⟨pr⟩, ⟨pr⟩} = x)"),
    t!("C13" 0 0 "({⟨prop⟩} = x)"),
    t!("C13" 0 0 "var {⟨prop⟩} = x"),
    t!("C13" 0 0 "var [⟨bind⟩] = x"),
    t!("C13" 0 0 "var [⟨bd⟩, ⟨bd⟩] = x"),
    t!("C13" 0 0 "var {a: ⟨bind⟩} = x"),
    t!("C13" 0 0 "var {⟨pr⟩, ⟨pr⟩} = x"),
    t!("C13" 0 0 "for (var ⟨bind⟩ of x);"),
    t!("C13" 0 0 "for (⟨bind⟩ of x);"),
    t!("C13" 0 0 "for (⟨bind⟩ in x);"),
    t!("C13" 0 0 "try {} catch (⟨bind⟩) {}"),
    t!("C13" 0 0 "function f(⟨bind⟩){}"),
    t!("C13" 0 0 "var [ ⟨pat⟩ ⟨pat⟩ ] = x"),
    t!("C13" 0 0 "var { ⟨pat⟩ ⟨pat⟩ } = x"),
    t!("C13" 0 0 "[ ⟨pat⟩ ⟨pat⟩ ] = x"),
    t!("C13" 0 0 "({ ⟨pat⟩ ⟨pat⟩ } = x)"),
    t!("C13" 0 0 "[[⟨bd⟩] = ⟨bd⟩] = x"),
    t!("C13" 0 0 "x = [⟨bd⟩] = y"),
    t!("C13" 0 0 "f([⟨bd⟩] = y, {⟨pr⟩})"),
    t!("C13" 0 1 "var [ ⟨pat⟩ ⟨pat⟩ ⟨pat⟩ ] = x"),
    t!("C13" 0 1 "({ ⟨pat⟩ ⟨pat⟩ ⟨pat⟩ } = x)"),
    t!("C13" 0 1 "[ ⟨pat⟩ ⟨pat⟩ ⟨pat⟩ ⟨pat⟩ ] = x"),
    t!("C13" 0 1 "var { ⟨pat⟩ ⟨pat⟩ ⟨pat⟩ ⟨pat⟩ } = x"),
    t!("C13" 0 0 "⟨!dc<#1⟩⟨bind⟩⟨!dc>#1⟩"),
    t!("C13" 0 0 "⟨!dc<#1⟩⟨!pn<#2⟩⟨bd⟩⟨!pn>#2⟩⟨!dc>#1⟩"),
    t!("C13" 0 1 "⟨!dc<#1⟩⟨!pn<#2⟩⟨bind⟩⟨!pn>#2⟩⟨!dc>#1⟩"),
    t!("C13" 0 0 "⟨!dc<#1⟩{⟨pr⟩, ⟨bd⟩}⟨!dc>#1⟩"),
    t!("C13" 0 0 "⟨!dc<#1⟩[⟨bd⟩, ⟨bd⟩]⟨!dc>#1⟩"),
    t!("C13" 0 0 "⟨!dc<#1⟩{⟨prop⟩}⟨!dc>#1⟩"),
    t!("C13" 0 1 "⟨!dc<#1⟩⟨!pn<#2⟩⟨!pn<#3⟩⟨bd⟩⟨!pn>#3⟩⟨!pn>#2⟩⟨!dc>#1⟩"),
    t!("C13" 0 0 "x = ⟨!pn<#1⟩⟨!pn<#2⟩⟨!pn<#3⟩a⟨!pn>#3⟩⟨!pn>#2⟩⟨!pn>#1⟩ ⟨asg⟩ y"),
    t!("C13" 0 0 "(⟨!pn<#1⟩⟨!pn<#2⟩⟨!pn<#3⟩a⟨!pn>#3⟩⟨!pn>#2⟩⟨!pn>#1⟩) => 1"),
    t!("C13" 0 0 "var ⟨!pn<#1⟩⟨!pn<#2⟩⟨bd⟩⟨!pn>#2⟩⟨!pn>#1⟩ = y"),
    t!("C13" 0 0 "⟨!dc<#1⟩{a: b = c ⟨bin1⟩ d}⟨!dc>#1⟩"),
    t!("C13" 0 0 "⟨!dc<#1⟩[a = c ⟨bin1⟩ d]⟨!dc>#1⟩"),
    t!("C13" 0 0 "⟨!dc<#1⟩{a = c ⟨bin1⟩ d}⟨!dc>#1⟩"),
    t!("C13" 0 0 "⟨!dc<#1⟩{[c ⟨bin1⟩ d]: b}⟨!dc>#1⟩"),
    t!("C13" 0 0 "⟨!dc<#1⟩[{a: [b = c in d]}, ...e]⟨!dc>#1⟩"),
    t!("C13" 0 0 "⟨vk⟩ ⟨!pn<#1⟩let⟨!pn>#1⟩ = a"),
    t!("C13" 0 0 "⟨vk⟩ ⟨!pn<#1⟩⟨!pn<#2⟩let⟨!pn>#2⟩⟨!pn>#1⟩ = a"),
    t!("C13" 0 0 "for (⟨vk⟩ ⟨!pn<#1⟩let⟨!pn>#1⟩ of a) ;"),
    t!("C13" 0 0 "⟨!dc<#1⟩⟨!pn<#2⟩⟨word⟩⟨!pn>#2⟩⟨!dc>#1⟩"),
    // C14: arrow functions
    t!("C14" 2 0 "⟨bind⟩ => 1"),
    t!("C14" 2 0 "(⟨bind⟩) => 1"),
    t!("C14" 2 0 "async (⟨bind⟩) => 1"),
    t!("C14" 2 0 "async ⟨bind⟩ => 1"),
    t!("C14" 0 0 "(⟨bd⟩, ⟨bd⟩) => 1"),
    t!("C14" 0 0 "async (⟨bd⟩, ⟨bd⟩) => 1"),
    t!("C14" 0 0 "async (⟨bd⟩, ⟨bd⟩)"),
    t!("C14" 0 0 "(⟨expr⟩) => 1"),
    t!("C14" 0 0 "⟨expr⟩ => 1"),
    t!("C14" 0 0 "((⟨expr⟩)) => 1"),
    t!("C14" 0 0 "a => ⟨expr⟩"),
    t!("C14" 0 0 "a => { ⟨stmt⟩ }"),
    t!("C14" 0 0 "async a => { ⟨st⟩ }"),
    t!("C14" 0 0 "async a => ⟨expr⟩"),
    t!("C14" 0 0 "a => ⟨ex⟩ ⟨post⟩"),
    t!("C14" 0 0 "a => {} ⟨opr⟩ b"),
    t!("C14" 0 0 "x = a => {} ⟨line⟩"),
    t!("C14" 0 0 "a ⟨opr⟩ b => c"),
    t!("C14" 0 0 "(a, b)⟨nl⟩=>⟨nl⟩{}"),
    t!("C14" 0 0 "async⟨nl⟩a⟨nl⟩=>⟨nl⟩b"),
    t!("C14" 0 0 "async⟨nl⟩(a)⟨nl⟩=>⟨nl⟩b"),
    t!("C14" 0 0 "(⟨tok⟩ ⟨tok⟩) => 1"),
    t!("C14" 0 0 "(a, ⟨tok⟩ ⟨tok⟩) => 1"),
    t!("C14" 0 0 "async (⟨tok⟩ ⟨tok⟩) => 1"),
    t!("C14" 0 0 "() => a => (⟨ex⟩) => b"),
    t!("C14" 0 0 "f(⟨bd⟩ => 1, (⟨bd⟩) => 2)"),
    t!("C14" 0 0 "a ? (⟨bd⟩) : b => c"),
    t!("C14" 0 0 "a ? (b) => (⟨ex⟩) : c => d"),
    t!("C14" 0 0 "for (a => ⟨ex⟩;;);"),
    t!("C14" 0 0 "({⟨pr⟩}) => 1"),
    t!("C14" 0 0 "({⟨pr⟩}, [⟨bd⟩]) => 1"),
    t!("C14" 0 0 "(a, ...⟨bd⟩) => 1"),
    t!("C14" 0 0 "function* g(){ (⟨bd⟩) => ⟨ctx⟩ }"),
    t!("C14" 0 0 "async function f(){ (⟨bd⟩) => ⟨ctx⟩ }"),
    t!("C14" 0 0 "(a = ⟨ctx⟩) => 1"),
    t!("C14" 0 0 "async (a = ⟨ctx⟩) => 1"),
    t!("C14" 0 0 "async () => { ⟨ctx⟩ }"),
    t!("C14" 0 0 "async () => ⟨ctx⟩"),
    t!("C14" 0 1 "(⟨tok⟩ ⟨tok⟩ ⟨tok⟩) => 1"),
    t!("C14" 0 1 "⟨tok⟩ ⟨tok⟩ => ⟨tok⟩ ⟨tok⟩"),
    t!("C14" 0 0 "⟨!hc<#1⟩(⟨bd⟩) => ⟨ax⟩⟨!hc>#1⟩"),
    t!("C14" 0 0 "⟨!hc<#1⟩async (⟨bd⟩) => ⟨ax⟩⟨!hc>#1⟩"),
    t!("C14" 0 0 "⟨!es<#1⟩(⟨bd⟩, ⟨bd⟩) => a⟨!es>#1⟩"),
    t!("C14" 0 0 "⟨!es<#1⟩(a, ⟨bd⟩) => ⟨ax⟩⟨!es>#1⟩"),
    t!("C14" 0 1 "⟨!es<#1⟩(⟨bd⟩, ⟨bd⟩) => ⟨ax⟩⟨!es>#1⟩"),
    t!("C14" 0 0 "⟨!sc<#1⟩(⟨bd⟩) => ⟨ctx⟩⟨!sc>#1⟩"),
    t!("C14" 0 0 "⟨!es<#1⟩a => { ⟨st⟩ }⟨!es>#1⟩ ⟨opr⟩ b"),
    t!("C14" 0 0 "⟨!hc<#1⟩async⟨nl⟩⟨bd⟩⟨nl⟩=> a⟨!hc>#1⟩"),
    t!("C14" 0 0 "⟨!ec<#1⟩(⟨bd⟩)⟨!ec>#1⟩ => 1"),
    t!("C14" 0 0 "(⟨!ec<#1⟩⟨bd⟩⟨!ec>#1⟩) => 1"),
    t!("C14" 0 0 "async (x = ⟨aw⟩) => 1"),
    t!("C14" 0 0 "async (x = ⟨aw⟩)"),
    t!("C14" 0 0 "async (⟨aw⟩, ⟨aw⟩) => 1"),
    t!("C14" 0 0 "async (⟨aw⟩)"),
    t!("C14" 0 0 "(x = ⟨aw⟩) => 1"),
    t!("C14" 0 0 "x = async (y = async (z = ⟨aw⟩) => 1)⟨ar⟩"),
    t!("C14" 0 0 "x = (y = async (z = ⟨aw⟩)⟨ar⟩)⟨ar⟩"),
    t!("C14" 0 0 "async function f(){ async (x = ⟨aw⟩)⟨ar⟩ }"),
    // C15: automatic semicolon insertion
    t!("C15" 0 0 "⟨ln⟩⟨nl⟩⟨line⟩"),
    t!("C15" 0 0 "⟨ln⟩⟨nl⟩⟨line⟩⟨nl⟩⟨line⟩"),
    t!("C15" 0 0 "{ ⟨ln⟩⟨sep⟩⟨line⟩ }"),
    t!("C15" 0 0 "function f(){ ⟨ln⟩⟨sep⟩⟨line⟩ }"),
    t!("C15" 0 0 "function* f(){ ⟨ln⟩⟨sep⟩⟨line⟩ }"),
    t!("C15" 0 0 "while (1) { ⟨ret⟩⟨ws⟩⟨line⟩ }"),
    t!("C15" 0 0 "function* g(){ while (1) { ⟨ret⟩⟨ws⟩⟨line⟩ } }"),
    t!("C15" 0 0 "l: while (1) { break⟨ws⟩l⟨ws⟩a }"),
    t!("C15" 0 0 "a⟨ws⟩++⟨ws⟩b⟨ws⟩--⟨sep⟩c"),
    t!("C15" 0 0 "do ⟨st⟩⟨sep⟩while(a)⟨sep⟩⟨line⟩"),
    t!("C15" 0 0 "if (a) ⟨ln⟩⟨sep⟩else ⟨line⟩"),
    t!("C15" 0 0 "for (a⟨sep⟩b⟨sep⟩c) d"),
    t!("C15" 0 0 "throw⟨ws⟩a⟨ws⟩b"),
    t!("C15" 2 0 "async⟨ws⟩function f(){}⟨sep⟩⟨line⟩"),
    t!("C15" 0 0 "let⟨ws⟩a⟨sep⟩⟨line⟩"),
    t!("C15" 0 0 "var a⟨sep⟩⟨line⟩⟨sep⟩⟨line⟩"),
    t!("C15" 1 0 "import 'a'⟨sep⟩⟨line⟩"),
    t!("C15" 1 0 "import a from 'a'⟨sep⟩⟨line⟩"),
    t!("C15" 1 0 "export {a}⟨sep⟩⟨line⟩"),
    t!("C15" 1 0 "export default a⟨sep⟩⟨line⟩"),
    t!("C15" 1 0 "export * from 'a'⟨sep⟩⟨line⟩"),
    t!("C15" 1 0 "export default function(){}⟨sep⟩⟨line⟩"),
    t!("C15" 0 0 "debugger⟨sep⟩⟨line⟩"),
    t!("C15" 0 0 "a⟨ws⟩(b)⟨ws⟩[c]⟨ws⟩`d`"),
    t!("C15" 0 0 "x = y⟨sep⟩(⟨ex⟩)⟨sep⟩⟨line⟩"),
    t!("C15" 0 1 "⟨ln⟩⟨sep⟩⟨line⟩⟨sep⟩⟨line⟩⟨sep⟩⟨line⟩"),
    t!("C15" 0 0 "⟨!sc<#1⟩⟨ln⟩⟨sep⟩⟨line⟩⟨!sc>#1⟩"),
    t!("C15" 0 0 "⟨!sc<#1⟩⟨ret⟩⟨ws1⟩⟨line⟩⟨!sc>#1⟩"),
    t!("C15" 0 0 "⟨!sc<#1⟩a⟨!sc>#1⟩⟨sep⟩⟨line⟩"),
    t!("C15" 0 0 "x = ⟨!ec<#1⟩a⟨!ec>#1⟩⟨sep⟩⟨line⟩"),
    t!("C15" 1 0 "import ⟨imp⟩⟨sep⟩⟨line⟩"),
    t!("C15" 1 0 "export ⟨exp⟩⟨sep⟩⟨line⟩"),
    // C16: control-flow statements
    t!("C16" 0 0 "⟨stmt⟩ ⟨stmt⟩"),
    t!("C16" 0 0 "if (a) ⟨stmt⟩ else ⟨stmt⟩"),
    t!("C16" 0 0 "if (a) ⟨stmt⟩ ⟨stmt⟩"),
    t!("C16" 0 0 "if (a) if (b) ⟨st⟩ else ⟨st⟩ else ⟨st⟩"),
    t!("C16" 0 0 "{ ⟨stmt⟩ ⟨stmt⟩ }"),
    t!("C16" 0 0 "while (⟨ex⟩) ⟨stmt⟩"),
    t!("C16" 0 0 "do ⟨stmt⟩ while (⟨ex⟩) ⟨st⟩"),
    t!("C16" 0 0 "switch (a) { case ⟨ex⟩: ⟨st⟩ default: ⟨st⟩ }"),
    t!("C16" 0 0 "switch (⟨ex⟩) { default: ⟨st⟩ }"),
    t!("C16" 0 1 "switch (⟨ex⟩) { case ⟨ex⟩: ⟨st⟩ default: ⟨st⟩ }"),
    t!("C16" 0 0 "switch (a) { default: ⟨stmt⟩ case b: ⟨stmt⟩ }"),
    t!("C16" 0 0 "switch (a) { case b: case c: ⟨st⟩ ⟨tok⟩ }"),
    t!("C16" 0 0 "switch (a) { ⟨tok⟩ ⟨tok⟩ : }"),
    t!("C16" 0 0 "try { ⟨stmt⟩ } catch (e) { ⟨stmt⟩ }"),
    t!("C16" 0 0 "try { ⟨st⟩ } catch { ⟨st⟩ } finally { ⟨st⟩ }"),
    t!("C16" 0 0 "try { ⟨st⟩ } finally { ⟨st⟩ } ⟨tok⟩"),
    t!("C16" 0 0 "try {} ⟨tok⟩ ⟨tok⟩"),
    t!("C16" 0 0 "try ⟨stmt⟩ catch (a) ⟨stmt⟩"),
    t!("C16" 0 0 "with (⟨ex⟩) ⟨stmt⟩"),
    t!("C16" 0 0 "l: ⟨stmt⟩"),
    t!("C16" 0 0 "l: m: ⟨stmt⟩"),
    t!("C16" 0 0 "for (⟨head⟩; ⟨ex⟩; ⟨ex⟩) ;"),
    t!("C16" 0 0 "for (⟨head⟩ of ⟨ex⟩) ;"),
    t!("C16" 0 0 "for (⟨head⟩ in ⟨ex⟩) ;"),
    t!("C16" 0 0 "for (⟨head⟩⟨sep2⟩⟨ex⟩⟨sep2⟩b) ;"),
    t!("C16" 0 0 "for (⟨head⟩⟨sep2⟩b⟨sep2⟩⟨hd⟩) ;"),
    t!("C16" 0 1 "for (⟨head⟩⟨sep2⟩⟨ex⟩⟨sep2⟩⟨hd⟩) ;"),
    t!("C16" 0 0 "for (;;) ⟨stmt⟩"),
    t!("C16" 0 0 "for (a of b) ⟨stmt⟩"),
    t!("C16" 0 0 "for (a in b) ⟨stmt⟩"),
    t!("C16" 0 0 "for (⟨tok⟩ ⟨tok⟩;;);"),
    t!("C16" 0 0 "for (var ⟨tok⟩ ⟨tok⟩ x);"),
    t!("C16" 0 0 "throw ⟨expr⟩"),
    t!("C16" 0 0 "if ⟨tok⟩ a ⟨tok⟩ b"),
    t!("C16" 0 0 "⟨tok⟩ ⟨tok⟩ (a) b"),
    t!("C16" 0 1 "⟨tok⟩ ⟨tok⟩ ⟨tok⟩"),
    t!("C16" 0 1 "for (⟨tok⟩ ⟨tok⟩ ⟨tok⟩);"),
    t!("C16" 0 1 "⟨st⟩ ⟨st⟩ ⟨st⟩"),
    t!("C16" 0 0 "⟨!sc<#1⟩⟨stmt⟩ ⟨st⟩⟨!sc>#1⟩"),
    t!("C16" 0 0 "⟨!ss<#1⟩⟨!sc<#2⟩⟨st⟩⟨!sc>#2⟩⟨!ss>#1⟩"),
    t!("C16" 0 0 "switch (a) { ⟨!cs⟩ ⟨!cs⟩ ⟨!cs⟩ ⟨cs⟩ }"),
    t!("C16" 0 1 "switch (a) { ⟨!cs⟩ ⟨!cs⟩ ⟨!cs⟩ ⟨!cs⟩ ⟨cs⟩ }"),
    t!("C16" 0 0 "⟨!ss<#1⟩for (⟨hd⟩⟨sep2⟩⟨ax⟩) a⟨!ss>#1⟩"),
    t!("C16" 0 0 "⟨!ss<#1⟩for (⟨hd⟩⟨sep2⟩a) ⟨st⟩⟨!ss>#1⟩"),
    t!("C16" 0 1 "⟨!ss<#1⟩for (⟨hd⟩⟨sep2⟩⟨ex⟩) ⟨st⟩⟨!ss>#1⟩"),
    t!("C16" 0 1 "⟨!sc<#1⟩⟨!sc<#2⟩⟨stmt⟩⟨!sc>#2⟩⟨!sc>#1⟩"),
    t!("C16" 0 0 "if (a) ⟨!sc<#1⟩if (b) ⟨st⟩⟨!sc>#1⟩ else ⟨st⟩"),
    t!("C16" 0 0 "for (a, ⟨ex⟩⟨sep2⟩⟨ax⟩⟨sep2⟩) ;"),
    t!("C16" 0 0 "for (a, b ⟨bin⟩ c; ; ) ;"),
    t!("C16" 0 0 "for (⟨hd⟩, a ⟨bin⟩ b⟨sep2⟩c; ) ;"),
    t!("C16" 0 0 "for (var f = ⟨!fx<#1⟩⟨sin⟩⟨!fx>#1⟩⟨sep2⟩a;) ;"),
    t!("C16" 0 0 "for (f = ⟨!fx<#1⟩⟨sin⟩⟨!fx>#1⟩⟨sep2⟩a;) ;"),
    t!("C16" 0 0 "for (let f = 1, g = ⟨!fx<#1⟩⟨sin⟩⟨!fx>#1⟩;;) ;"),
    // C17: declarations
    t!("C17" 2 0 "⟨!decl⟩"),
    t!("C17" 0 0 "var ⟨bd⟩, ⟨bd⟩"),
    t!("C17" 0 0 "let ⟨bd⟩, ⟨bd⟩"),
    t!("C17" 0 0 "const ⟨bd⟩, ⟨bd⟩"),
    t!("C17" 0 0 "var ⟨bd⟩ = ⟨ex⟩, c"),
    t!("C17" 0 0 "let ⟨bd⟩ = ⟨ex⟩, c"),
    t!("C17" 0 0 "const ⟨bd⟩ = ⟨ex⟩, c = 1"),
    t!("C17" 0 0 "let ⟨tok⟩ ⟨tok⟩ a"),
    t!("C17" 0 0 "const ⟨tok⟩ ⟨tok⟩ a"),
    t!("C17" 0 0 "var ⟨tok⟩ ⟨tok⟩ a"),
    t!("C17" 0 0 "for (let ⟨bd⟩, ⟨bd⟩;;);"),
    t!("C17" 0 0 "for (const ⟨bd⟩, ⟨bd⟩;;);"),
    t!("C17" 0 0 "for (var ⟨bd⟩, ⟨bd⟩;;);"),
    t!("C17" 0 0 "for (let ⟨bd⟩ of ⟨ex⟩);"),
    t!("C17" 0 0 "for (const ⟨bd⟩ in ⟨ex⟩);"),
    t!("C17" 0 0 "for (const ⟨bd⟩ = ⟨ex⟩ ⟨sep2⟩ a;);"),
    t!("C17" 0 0 "for (var ⟨bd⟩ = ⟨ex⟩ ⟨sep2⟩ a;);"),
    t!("C17" 0 0 "let ⟨word⟩"),
    t!("C17" 0 0 "let [⟨word⟩, let] = a"),
    t!("C17" 0 0 "if (a) let ⟨tok⟩"),
    t!("C17" 0 0 "let⟨nl⟩⟨line⟩"),
    t!("C17" 0 0 "{ let a⟨sep⟩const b⟨sep⟩var c }"),
    t!("C17" 0 1 "let ⟨tok⟩ ⟨tok⟩ ⟨tok⟩"),
    t!("C17" 0 1 "for (let ⟨tok⟩ ⟨tok⟩ ⟨tok⟩);"),
    t!("C17" 0 0 "⟨!sc<#1⟩⟨decl⟩⟨!sc>#1⟩"),
    t!("C17" 0 0 "⟨!sc<#1⟩for (⟨decl⟩⟨sep2⟩⟨ex⟩) ;⟨!sc>#1⟩"),
    t!("C17" 0 0 "for (⟨decl⟩ ⟨sep2⟩ ⟨ax⟩ ⟨sep2⟩) ;"),
    t!("C17" 0 0 "for (var a = ⟨ax⟩ ⟨sep2⟩ ⟨ax⟩⟨sep2⟩) ;"),
    t!("C17" 0 0 "for (let a = ⟨!ec<#1⟩⟨ax⟩⟨!ec>#1⟩ ⟨sep2⟩ b;) ;"),
    t!("C17" 0 0 "var a = ⟨!ec<#1⟩⟨ax⟩⟨!ec>#1⟩, b = c"),
    t!("C17" 1 0 "export ⟨decl⟩"),
    t!("C17" 0 0 "for (⟨vk⟩ a, b = c ⟨bin⟩ d⟨sep2⟩e;) ;"),
    t!("C17" 0 0 "for (⟨vk⟩ a = 1, b = c ⟨bin⟩ d⟨sep2⟩e;) ;"),
    t!("C17" 0 0 "for (⟨vk⟩ a = b ⟨bin⟩ c⟨sep2⟩d;) ;"),
    t!("C17" 0 0 "for (⟨vk⟩ {a: b = c ⟨bin⟩ d}⟨sep2⟩e;) ;"),
    t!("C17" 0 0 "for (⟨vk⟩ [a = b ⟨bin⟩ c]⟨sep2⟩e;) ;"),
    t!("C17" 0 0 "for (⟨vk⟩ {a = b ⟨bin⟩ c} = d ⟨bin⟩ e⟨sep2⟩f;) ;"),
    t!("C17" 0 0 "for (⟨vk⟩ ⟨bd⟩, b⟨sep2⟩e;) ;"),
    t!("C17" 0 0 "for (let ⟨tok⟩⟨sep2⟩a;) ;"),
    t!("C17" 0 0 "for (let ⟨tok⟩⟨sep2⟩a) ;"),
    t!("C17" 0 0 "for (let⟨tail⟩⟨sep2⟩a) ;"),
    t!("C17" 0 0 "for (⟨vk⟩ let⟨sep2⟩a) ;"),
    t!("C17" 0 0 "for (⟨vk⟩ ⟨word⟩⟨sep2⟩a) ;"),
    t!("C17" 0 0 "for (⟨vk⟩ ⟨word⟩⟨sep2⟩a;) ;"),
    t!("C17" 0 0 "for (⟨word⟩⟨tail⟩⟨sep2⟩a) ;"),
    t!("C17" 0 0 "for (⟨word⟩ ⟨word⟩⟨sep2⟩a;) ;"),
    // C18: return, break, continue, yield, await in context
    t!("C18" 2 0 "⟨ctx⟩"),
    t!("C18" 2 0 "l: ⟨ctx⟩"),
    t!("C18" 2 0 "function f(){ ⟨ctx⟩ }"),
    t!("C18" 2 0 "function* f(){ ⟨ctx⟩ }"),
    t!("C18" 2 0 "async function f(){ ⟨ctx⟩ }"),
    t!("C18" 2 0 "async function* f(){ ⟨ctx⟩ }"),
    t!("C18" 2 0 "() => { ⟨ctx⟩ }"),
    t!("C18" 2 0 "async () => { ⟨ctx⟩ }"),
    t!("C18" 2 0 "while (1) { ⟨ctx⟩ }"),
    t!("C18" 2 0 "l: while (1) { ⟨ctx⟩ }"),
    t!("C18" 2 0 "switch (1) { case 1: ⟨ctx⟩ }"),
    t!("C18" 0 0 "while (1) { function f(){ ⟨ctx⟩ } }"),
    t!("C18" 0 0 "while (1) { () => { ⟨ctx⟩ } }"),
    t!("C18" 0 0 "while (1) { class A { m(){ ⟨ctx⟩ } } }"),
    t!("C18" 0 0 "switch (1) { case 1: function f(){ ⟨ctx⟩ } }"),
    t!("C18" 0 0 "while (1) { switch (a) { case 1: ⟨ctx⟩ } ⟨ctx⟩ }"),
    t!("C18" 0 0 "switch (a) { case 1: while (1); ⟨ctx⟩ }"),
    t!("C18" 0 0 "function f(){ while (1); ⟨ctx⟩ }"),
    t!("C18" 0 0 "function f(){} ⟨ctx⟩"),
    t!("C18" 0 0 "async function f(){} ⟨ctx⟩"),
    t!("C18" 0 0 "function* f(){} ⟨ctx⟩"),
    t!("C18" 0 0 "x = {async m(){}, *n(){}, p: ⟨ctx⟩}"),
    t!("C18" 0 0 "x = {async m(){ ⟨ctx⟩ }}"),
    t!("C18" 0 0 "x = {*m(){ ⟨ctx⟩ }}"),
    t!("C18" 0 0 "x = {async *m(){ ⟨ctx⟩ }}"),
    t!("C18" 0 0 "x = {m(){ ⟨ctx⟩ }}"),
    t!("C18" 0 0 "x = {get m(){ ⟨ctx⟩ }}"),
    t!("C18" 0 0 "function* g(){ x = {get m(){ ⟨ctx⟩ }} }"),
    t!("C18" 0 0 "function* g(){ function f(){ ⟨ctx⟩ } }"),
    t!("C18" 0 0 "function* g(){ x = function(){ ⟨ctx⟩ } }"),
    t!("C18" 0 0 "function* g(){ () => { ⟨ctx⟩ } }"),
    t!("C18" 0 0 "async function f(){ function g(){ ⟨ctx⟩ } }"),
    t!("C18" 0 0 "async function f(){ () => { ⟨ctx⟩ } }"),
    t!("C18" 0 0 "async function f(){ function* g(){ ⟨ctx⟩ } ⟨ctx⟩ }"),
    t!("C18" 0 0 "async function f(){ class A { m(){ ⟨ctx⟩ } } }"),
    t!("C18" 0 0 "async function f(){ class A extends (⟨ctx⟩) {} }"),
    t!("C18" 0 0 "function* g(){ class A { [⟨ctx⟩](){} } }"),
    t!("C18" 0 0 "function* g(){ x = { [⟨ctx⟩]: 1 } }"),
    t!("C18" 0 0 "function f(a = ⟨ctx⟩){}"),
    t!("C18" 0 0 "function* g(a = ⟨ctx⟩){}"),
    t!("C18" 0 0 "async function f(a = ⟨ctx⟩){}"),
    t!("C18" 0 0 "function* g(){ function f(a = ⟨ctx⟩){} }"),
    t!("C18" 0 0 "async function f(){ for (a of ⟨ctx⟩); }"),
    t!("C18" 0 0 "function* g(){ for (x = ⟨ctx⟩;;); }"),
    t!("C18" 0 0 "do { ⟨ctx⟩ } while (0)"),
    t!("C18" 0 0 "for (;;) { ⟨ctx⟩ }"),
    t!("C18" 0 0 "for (a of b) ⟨ctx⟩"),
    t!("C18" 0 0 "for (a in b) { { ⟨ctx⟩ } }"),
    t!("C18" 0 0 "do ; while (0); ⟨ctx⟩"),
    t!("C18" 0 0 "for (;;); ⟨ctx⟩"),
    t!("C18" 0 0 "switch (a) {} ⟨ctx⟩"),
    t!("C18" 0 0 "x = function(){ return; }; ⟨ctx⟩"),
    t!("C18" 0 0 "() => {}; ⟨ctx⟩"),
    t!("C18" 0 0 "function* g(){ ⟨tok⟩ yield ⟨tok⟩ }"),
    t!("C18" 0 0 "async function f(){ ⟨tok⟩ await ⟨tok⟩ }"),
    t!("C18" 0 0 "function* g(){ yield ⟨expr⟩ }"),
    t!("C18" 0 0 "function* g(){ yield* ⟨expr⟩ }"),
    t!("C18" 0 0 "async function f(){ await ⟨expr⟩ }"),
    t!("C18" 0 0 "async function f(){ await ⟨ex⟩ ⟨bin1⟩ await ⟨ex⟩ }"),
    t!("C18" 0 1 "function* g(){ ⟨tok⟩ yield ⟨tok⟩ ⟨tok⟩ }"),
    t!("C18" 0 1 "async function f(){ ⟨tok⟩ await ⟨tok⟩ ⟨tok⟩ }"),
    t!("C18" 2 0 "⟨!ss<#1⟩⟨!ss<#2⟩⟨ctx⟩⟨!ss>#2⟩⟨!ss>#1⟩"),
    t!("C18" 0 0 "⟨!sc<#1⟩⟨!sc<#2⟩⟨ret⟩⟨!sc>#2⟩⟨!sc>#1⟩"),
    t!("C18" 0 1 "⟨!sc<#1⟩⟨!sc<#2⟩⟨ctx⟩⟨!sc>#2⟩⟨!sc>#1⟩"),
    t!("C18" 0 0 "⟨!sc<#1⟩a; ⟨ret⟩; b⟨!sc>#1⟩; ⟨ret⟩"),
    t!("C18" 0 0 "⟨!sc<#1⟩⟨!ss<#2⟩a⟨!ss>#2⟩; ⟨ret⟩⟨!sc>#1⟩"),
    t!("C18" 0 0 "x = ⟨!ec<#1⟩⟨ctx⟩⟨!ec>#1⟩"),
    t!("C18" 0 0 "⟨!ss<#1⟩x = ⟨!es<#2⟩⟨ctx⟩⟨!es>#2⟩⟨!ss>#1⟩"),
    t!("C18" 0 0 "⟨un2⟩; ⟨ctx⟩"),
    t!("C18" 0 0 "⟨!ss<#1⟩⟨un2⟩; ⟨ret⟩⟨!ss>#1⟩"),
    t!("C18" 0 0 "x = ⟨!ec<#1⟩a⟨!ec>#1⟩; ⟨ctx⟩"),
    t!("C18" 0 0 "while (a) { ⟨un2⟩; ⟨ret⟩ }"),
    t!("C18" 0 0 "l: while (a) { ⟨!sc<#1⟩b⟨!sc>#1⟩ ⟨ret⟩ }"),
    t!("C18" 0 0 "async function f(){ ⟨un2⟩; ⟨ctx⟩ }"),
    t!("C18" 0 0 "function* f(){ ⟨un2⟩; ⟨ctx⟩ }"),
    t!("C18" 0 1 "⟨!sc<#1⟩⟨un2⟩; ⟨ctx⟩⟨!sc>#1⟩"),
    t!("C18" 0 0 "switch (a) { case b: ⟨!sc<#1⟩c⟨!sc>#1⟩ ⟨ret⟩ }"),
    t!("C18" 0 0 "⟨!ff<#1⟩⟨!fb<#2⟩⟨ctx⟩⟨!fb>#2⟩⟨!ff>#1⟩"),
    t!("C18" 0 0 "⟨!ff<#1⟩⟨!fb<#2⟩b⟨!fb>#2⟩; ⟨ctx⟩⟨!ff>#1⟩"),
    t!("C18" 0 0 "⟨!ff<#1⟩⟨!fb<#2⟩⟨un2⟩⟨!fb>#2⟩; ⟨yar⟩⟨!ff>#1⟩"),
    t!("C18" 0 0 "⟨!ff<#1⟩⟨decl⟩; ⟨yar⟩⟨!ff>#1⟩"),
    t!("C18" 0 0 "⟨!ff<#1⟩for (⟨decl⟩;;) b; ⟨yar⟩⟨!ff>#1⟩"),
    t!("C18" 0 0 "⟨!ff<#1⟩⟨!fb<#2⟩⟨decl⟩⟨!fb>#2⟩; ⟨yar⟩⟨!ff>#1⟩"),
    t!("C18" 0 0 "⟨!ff<#1⟩⟨!fb<#2⟩for (⟨vk⟩ a = b, c⟨sep2⟩d;) e⟨!fb>#2⟩; ⟨yar⟩⟨!ff>#1⟩"),
    t!("C18" 0 0 "⟨!fb<#1⟩⟨st⟩⟨!fb>#1⟩\n⟨ctx⟩"),
    t!("C18" 0 0 "⟨!ff<#2⟩⟨!fb<#1⟩⟨st⟩⟨!fb>#1⟩; ⟨yar⟩⟨!ff>#2⟩"),
    t!("C18" 0 1 "⟨!fb<#1⟩for (⟨hd⟩⟨sep2⟩b;) ;⟨!fb>#1⟩; ⟨yar⟩"),
    t!("C18" 0 1 "⟨!ff<#2⟩⟨!fb<#1⟩⟨sin⟩⟨!fb>#1⟩; ⟨yar⟩⟨!ff>#2⟩"),
    // C19: strict mode
    t!("C19" 2 0 "⟨strict⟩"),
    t!("C19" 0 0 "'use strict'; ⟨strict⟩"),
    t!("C19" 0 0 "⟨dir⟩; ⟨strict⟩"),
    t!("C19" 0 0 "'a'; 'use strict'\n⟨strict⟩"),
    t!("C19" 0 0 "⟨dir⟩⟨sep⟩⟨dir⟩⟨sep⟩with (a);"),
    t!("C19" 0 0 "a; 'use strict'; ⟨strict⟩"),
    t!("C19" 0 0 "function f(){ ⟨dir⟩\n⟨strict⟩ }"),
    t!("C19" 0 0 "function f(){ 'use strict'; ⟨strict⟩ }"),
    t!("C19" 0 0 "function f(){ 'use strict' } ⟨strict⟩"),
    t!("C19" 0 0 "x = function(){ 'use strict'; ⟨strict⟩ }"),
    t!("C19" 0 0 "() => { 'use strict'; ⟨strict⟩ }"),
    t!("C19" 0 0 "() => { 'use strict' }; ⟨strict⟩"),
    t!("C19" 0 0 "x = {m(){ 'use strict'; ⟨strict⟩ }}"),
    t!("C19" 0 0 "x = {get m(){ 'use strict' }, n(){ ⟨strict⟩ }}"),
    t!("C19" 0 0 "class A { m(){ ⟨strict⟩ } }"),
    t!("C19" 0 0 "class A extends (⟨ex⟩) { [⟨ex⟩](){} } ⟨strict⟩"),
    t!("C19" 0 0 "class A {} ⟨strict⟩"),
    t!("C19" 0 0 "x = class { m(){} }; ⟨strict⟩"),
    t!("C19" 0 0 "{ 'use strict'; ⟨strict⟩ }"),
    t!("C19" 0 0 "if (a) { 'use strict'; ⟨strict⟩ }"),
    t!("C19" 0 0 "function f(){ 'use strict'; function g(){ ⟨strict⟩ } }"),
    t!("C19" 0 0 "'use strict'; function f(){ ⟨strict⟩ }"),
    t!("C19" 0 0 "'use strict'; () => { ⟨strict⟩ }"),
    t!("C19" 0 0 "'use strict'; ⟨word⟩: ⟨word⟩"),
    t!("C19" 0 0 "'use strict'; x = {⟨word⟩, ⟨word⟩: 1}"),
    t!("C19" 0 0 "'use strict'; function ⟨word⟩(⟨word⟩){}"),
    t!("C19" 0 0 "'use strict'; (⟨word⟩, ⟨word⟩) => 1"),
    t!("C19" 0 0 "'use strict'; var {⟨word⟩, a: ⟨word⟩} = x"),
    t!("C19" 0 0 "class ⟨word⟩ extends ⟨word⟩ { ⟨word⟩(){} }"),
    t!("C19" 0 0 "⟨dir⟩"),
    t!("C19" 1 0 "⟨dir⟩; ⟨strict⟩"),
    t!("C19" 0 0 "x = () => { ⟨dir⟩; ⟨dir⟩ }"),
    t!("C19" 0 0 "'⟨c⟩⟨c⟩'; a"),
    t!("C19" 0 0 "'\\⟨esc⟩⟨esc⟩'; a"),
    t!("C19" 0 0 "'use strict⟨c⟩ with (a);"),
    t!("C19" 0 0 "'use⟨c⟩strict'; with (a);"),
    t!("C19" 0 0 "⟨un2⟩; ⟨strict⟩"),
    t!("C19" 0 0 "x = ⟨!ec<#1⟩a⟨!ec>#1⟩; ⟨strict⟩"),
    t!("C19" 0 0 "x = ⟨!ec<#1⟩function(){ 'use strict' }⟨!ec>#1⟩; ⟨strict⟩"),
    t!("C19" 0 0 "x = ⟨!ec<#1⟩⟨strict⟩⟨!ec>#1⟩"),
    t!("C19" 0 0 "⟨!sc<#1⟩'use strict'; a⟨!sc>#1⟩; ⟨strict⟩"),
    t!("C19" 0 0 "⟨!sc<#1⟩'use strict'; ⟨strict⟩⟨!sc>#1⟩"),
    t!("C19" 0 0 "⟨!sc<#1⟩⟨strict⟩⟨!sc>#1⟩"),
    t!("C19" 0 0 "'use strict'; ⟨!ss<#1⟩⟨strict⟩⟨!ss>#1⟩"),
    t!("C19" 0 0 "'use strict'; ⟨un2⟩; ⟨strict⟩"),
    t!("C19" 0 0 "class A { m(){ ⟨un2⟩; ⟨strict⟩ } }"),
    t!("C19" 0 0 "class A { m(){} }; ⟨!ss<#1⟩⟨strict⟩⟨!ss>#1⟩"),
    t!("C19" 0 0 "⟨!fc<#1⟩⟨word⟩⟨!fc>#1⟩"),
    t!("C19" 0 0 "'use strict'; ⟨!fc<#1⟩⟨word⟩⟨!fc>#1⟩"),
    t!("C19" 0 0 "'use strict'; x = ⟨!ec<#1⟩⟨word⟩⟨!ec>#1⟩"),
    t!("C19" 0 0 "function f(){ ⟨!sc<#1⟩'use strict'; a⟨!sc>#1⟩; with (a) ; }"),
    t!("C19" 1 0 "⟨!fc<#1⟩⟨word⟩⟨!fc>#1⟩"),
    // C20: functions
    t!("C20" 2 0 "function f(⟨par⟩){}"),
    t!("C20" 2 0 "x = function(⟨par⟩){}"),
    t!("C20" 2 0 "function* f(⟨par⟩){}"),
    t!("C20" 2 0 "x = function* (⟨par⟩){}"),
    t!("C20" 2 0 "async function f(⟨par⟩){}"),
    t!("C20" 2 0 "x = async function(⟨par⟩){}"),
    t!("C20" 2 0 "async function* f(⟨par⟩){}"),
    t!("C20" 2 0 "x = async function* (⟨par⟩){}"),
    t!("C20" 0 0 "x = {m(⟨par⟩){}, *n(⟨par⟩){}}"),
    t!("C20" 0 0 "x = {async m(⟨par⟩){}, async *n(⟨par⟩){}}"),
    t!("C20" 0 0 "(⟨par⟩) => 1"),
    t!("C20" 0 0 "async (⟨par⟩) => 1"),
    t!("C20" 0 0 "function ⟨word⟩(){}"),
    t!("C20" 0 0 "x = function ⟨word⟩(){}"),
    t!("C20" 0 0 "x = function* ⟨word⟩(){}"),
    t!("C20" 0 0 "x = async function ⟨word⟩(){}"),
    t!("C20" 0 0 "function* g(){ function ⟨word⟩(){} }"),
    t!("C20" 0 0 "function* g(){ x = function ⟨word⟩(){} }"),
    t!("C20" 0 0 "async function f(){ function ⟨word⟩(){} }"),
    t!("C20" 0 0 "async function f(){ x = function ⟨word⟩(){} }"),
    t!("C20" 0 0 "function* ⟨word⟩(){}"),
    t!("C20" 0 0 "async function ⟨word⟩(){}"),
    t!("C20" 0 0 "function f(){ ⟨stmt⟩ ⟨st⟩ }"),
    t!("C20" 0 0 "function* f(){ ⟨stmt⟩ ⟨st⟩ }"),
    t!("C20" 0 0 "async function f(){ ⟨stmt⟩ ⟨st⟩ }"),
    t!("C20" 0 0 "x = function(){ ⟨stmt⟩ }"),
    t!("C20" 0 0 "x = async function* (){ ⟨stmt⟩ }"),
    t!("C20" 0 0 "function f(⟨bd⟩, ⟨bd⟩){}"),
    t!("C20" 0 0 "function f(⟨bind⟩ = 1, ...⟨bd⟩){}"),
    t!("C20" 0 0 "function ⟨tok⟩ ⟨tok⟩ a){}"),
    t!("C20" 0 0 "async ⟨tok⟩ ⟨tok⟩ (){}"),
    t!("C20" 0 0 "x = async ⟨tok⟩ ⟨tok⟩ (){}"),
    t!("C20" 0 0 "function f(⟨tok⟩ ⟨tok⟩){}"),
    t!("C20" 0 0 "x = function ⟨tok⟩ ⟨tok⟩ }"),
    t!("C20" 0 0 "function f() ⟨tok⟩ ⟨tok⟩ }"),
    t!("C20" 0 0 "(function(){ ⟨st⟩ })⟨tail⟩"),
    t!("C20" 0 0 "function f(){}⟨tail⟩"),
    t!("C20" 0 0 "function f(a = ⟨ex⟩, b = ⟨ex⟩){}"),
    t!("C20" 0 1 "function f(⟨tok⟩ ⟨tok⟩ ⟨tok⟩){}"),
    t!("C20" 0 1 "async ⟨tok⟩ ⟨tok⟩ ⟨tok⟩ {}"),
    t!("C20" 0 1 "function f(){ ⟨tok⟩ ⟨tok⟩ ⟨tok⟩ }"),
    t!("C20" 0 0 "⟨!fc<#1⟩⟨par⟩⟨!fc>#1⟩"),
    t!("C20" 0 0 "⟨!fc<#1⟩a = ⟨ax⟩⟨!fc>#1⟩"),
    t!("C20" 0 0 "⟨!fc<#1⟩⟨bd⟩, ⟨bd⟩⟨!fc>#1⟩"),
    t!("C20" 0 0 "⟨!hc<#1⟩function(){ ⟨!fc<#2⟩a = b in c⟨!fc>#2⟩ }⟨!hc>#1⟩"),
    t!("C20" 0 0 "⟨!hc<#1⟩function ⟨word⟩(⟨word⟩){}⟨!hc>#1⟩"),
    t!("C20" 0 0 "⟨!hs<#1⟩function f(a){ ⟨st⟩ }⟨!hs>#1⟩"),
    t!("C20" 0 1 "⟨!hc<#1⟩function ⟨word⟩(⟨word⟩){ ⟨st⟩ }⟨!hc>#1⟩"),
    t!("C20" 0 0 "⟨!hc<#1⟩async function ⟨ws1⟩(a = ⟨ax⟩){}⟨!hc>#1⟩"),
    t!("C20" 0 0 "⟨!sc<#1⟩⟨kind⟩ ⟨word⟩(⟨par⟩){}⟨!sc>#1⟩"),
    t!("C20" 0 0 "⟨!ss<#1⟩⟨kind⟩ ⟨word⟩(a){ ⟨st⟩ }⟨!ss>#1⟩"),
    t!("C20" 0 0 "⟨kind⟩ ⟨word⟩ (a){}⟨line⟩"),
    t!("C20" 0 0 "x = function f(a){ ⟨!sc<#1⟩⟨st⟩⟨!sc>#1⟩ }"),
    t!("C20" 0 0 "⟨!es<#1⟩function(⟨bd⟩){}⟨!es>#1⟩⟨tail⟩"),
    t!("C20" 0 0 "⟨!es<#1⟩function(){ ⟨st⟩ }⟨!es>#1⟩⟨tail⟩"),
    t!("C20" 0 1 "⟨!es<#1⟩function(⟨bd⟩){ ⟨st⟩ }⟨!es>#1⟩⟨tail⟩"),
    t!("C20" 0 0 "x = ⟨word⟩ function(){}"),
    t!("C20" 0 0 "⟨word⟩ function f(){}"),
    t!("C20" 0 0 "⟨tok⟩ function f(){}"),
    t!("C20" 0 0 "x = ⟨tok⟩ function(){}"),
    t!("C20" 0 0 "x = {a: ⟨word⟩ function(){}}"),
    t!("C20" 0 0 "f(⟨word⟩ function(){})"),
    t!("C20" 0 0 "for (⟨word⟩ function(){};;) ;"),
    t!("C20" 0 0 "x = ⟨word⟩⟨ws1⟩function f(){}"),
    t!("C20" 0 0 "⟨!ss<#1⟩let ⟨tok⟩ a⟨!ss>#1⟩"),
    t!("C20" 0 0 "⟨!ss<#1⟩let⟨ws1⟩⟨tok⟩ a⟨!ss>#1⟩"),
    t!("C20" 0 0 "⟨!sc<#1⟩let ⟨bin⟩ a⟨!sc>#1⟩"),
    t!("C20" 0 0 "let ⟨opr⟩ ⟨opr⟩ a"),
    t!("C20" 0 0 "l: let⟨ws1⟩⟨tok⟩"),
    t!("C20" 0 0 "⟨!ss<#1⟩let⟨ws1⟩⟨bd⟩⟨!ss>#1⟩"),
    t!("C20" 0 0 "x = let ⟨opr⟩ a"),
    t!("C20" 0 0 "let⟨line⟩"),
    t!("C20" 0 0 "let\n⟨line⟩"),
    t!("C20" 0 0 "let ⟨kw⟩"),
    t!("C20" 0 0 "let\n⟨kw⟩"),
    // C21: classes
    t!("C21" 2 0 "class A { ⟨memb⟩ }"),
    t!("C21" 2 0 "x = class { ⟨memb⟩ }"),
    t!("C21" 0 0 "class A { ⟨memb⟩ ⟨mb⟩ }"),
    t!("C21" 0 0 "class A extends B { ⟨memb⟩ }"),
    t!("C21" 0 0 "class A extends ⟨expr⟩ {}"),
    t!("C21" 0 0 "x = class extends ⟨expr⟩ {}"),
    t!("C21" 0 0 "class ⟨word⟩ {}"),
    t!("C21" 0 0 "x = class ⟨word⟩ extends a {}"),
    t!("C21" 0 0 "class A { ⟨tok⟩ ⟨tok⟩ (){} }"),
    t!("C21" 0 0 "class A { static ⟨tok⟩ ⟨tok⟩ (){} }"),
    t!("C21" 0 0 "class A { ⟨kw⟩(){} static ⟨kw⟩(){} }"),
    t!("C21" 0 0 "class A { get ⟨kw⟩(){} set ⟨kw⟩(a){} }"),
    t!("C21" 0 0 "class A { async ⟨kw⟩(){} *⟨kw⟩(){} }"),
    t!("C21" 0 0 "class A { ⟨lit⟩(){} }"),
    t!("C21" 0 0 "class A { m(⟨par⟩){ ⟨st⟩ } }"),
    t!("C21" 0 0 "class A { set m(⟨par⟩){} }"),
    t!("C21" 0 0 "class A { static set m(⟨par⟩){} }"),
    t!("C21" 0 0 "class A { get m(⟨par⟩){} }"),
    t!("C21" 0 0 "class A { *m(⟨par⟩){ ⟨st⟩ } }"),
    t!("C21" 0 0 "class A { async m(⟨par⟩){ ⟨st⟩ } }"),
    t!("C21" 0 0 "class A { static async *m(⟨par⟩){ ⟨st⟩ } }"),
    t!("C21" 0 0 "class A { constructor(⟨par⟩){ ⟨st⟩ } }"),
    t!("C21" 0 0 "class A extends B { constructor(){ super(⟨ex⟩); super.a ⟨asg⟩ ⟨ex⟩ } }"),
    t!("C21" 0 0 "class A { [⟨expr⟩](){} }"),
    t!("C21" 0 0 "class A ⟨tok⟩ ⟨tok⟩ {}"),
    t!("C21" 0 0 "x = class ⟨tok⟩ ⟨tok⟩ }"),
    t!("C21" 0 0 "class A {}⟨sep⟩⟨line⟩"),
    t!("C21" 0 0 "x = class {}⟨tail⟩⟨tail⟩"),
    t!("C21" 0 0 "class A {⟨pc⟩⟨pc⟩}"),
    t!("C21" 0 0 "class A { get⟨ws1⟩⟨ws1⟩a⟨ws1⟩(){} static⟨ws1⟩async⟨ws1⟩b(){} }"),
    t!("C21" 0 1 "class A { ⟨memb⟩ ⟨memb⟩ }"),
    t!("C21" 0 1 "class A { ⟨tok⟩ ⟨tok⟩ ⟨tok⟩ {} }"),
    t!("C21" 0 0 "class A { ⟨!stat⟩⟨nl⟩⟨!key⟩⟨!pars⟩{} }"),
    t!("C21" 0 0 "x = class { static⟨nl⟩⟨kw⟩⟨nl⟩⟨key⟩⟨pars⟩{} }"),
    t!("C21" 0 0 "class A { ⟨tok⟩⟨nl⟩*⟨nl⟩⟨key⟩(){} }"),
    t!("C21" 0 0 "class A { ⟨stat⟩ ⟨lit⟩(a){} }"),
    t!("C21" 0 0 "⟨!hc<#1⟩class ⟨word⟩ { ⟨mb⟩ }⟨!hc>#1⟩"),
    t!("C21" 0 0 "⟨!es<#1⟩class extends ⟨ax⟩ { [⟨ax⟩](){} }⟨!es>#1⟩"),
    t!("C21" 0 0 "⟨!ss<#1⟩class A { ⟨memb⟩ }⟨!ss>#1⟩"),
    t!("C21" 0 0 "class A { ⟨mb⟩⟨mb⟩⟨mb⟩ }"),
    t!("C21" 0 0 "class A { [⟨ax⟩](){} get [⟨!es<#1⟩a in b⟨!es>#1⟩](){} }"),
    t!("C21" 0 0 "for (x = class extends (⟨ax⟩) { [⟨ax⟩](a = ⟨ax⟩){} };;) ;"),
    t!("C21" 0 1 "class A { ⟨!stat⟩⟨nl⟩⟨!key⟩⟨!pars⟩{} ⟨!stat⟩ ⟨key⟩(){} }"),
    t!("C21" 0 0 "class A { m(){ ⟨!sc<#1⟩a⟨!sc>#1⟩ } ⟨mb⟩ }"),
    t!("C21" 0 0 "class A { static⟨nl⟩⟨key⟩⟨nl⟩⟨key⟩(a){} }"),
    t!("C21" 0 0 "⟨!sc<#1⟩class A {}⟨sep⟩⟨line⟩⟨!sc>#1⟩"),
    // C22: object literals
    t!("C22" 2 0 "x = {⟨prop⟩}"),
    t!("C22" 0 0 "x = {⟨prop⟩, ⟨pr⟩}"),
    t!("C22" 0 0 "x = {⟨pr⟩, ⟨pr⟩, ⟨pr⟩}"),
    t!("C22" 0 0 "({⟨prop⟩})"),
    t!("C22" 0 0 "({⟨prop⟩,})"),
    t!("C22" 0 0 "f({⟨prop⟩}, {⟨pr⟩})"),
    t!("C22" 0 0 "x = {⟨kw⟩: 1, ⟨kw⟩(){}}"),
    t!("C22" 0 0 "x = {get ⟨kw⟩(){}, set ⟨kw⟩(a){}}"),
    t!("C22" 0 0 "x = {async ⟨kw⟩(){}, *⟨kw⟩(){}}"),
    t!("C22" 0 0 "x = {⟨kw⟩}"),
    t!("C22" 0 0 "x = {⟨lit⟩: ⟨lit⟩}"),
    t!("C22" 0 0 "x = {get ⟨lit⟩(){}, ⟨lit⟩(){}}"),
    t!("C22" 0 0 "x = {a: ⟨expr⟩}"),
    t!("C22" 0 0 "x = {[⟨expr⟩]: 1}"),
    t!("C22" 0 0 "x = {...⟨expr⟩}"),
    t!("C22" 0 0 "x = {m(⟨par⟩){ ⟨st⟩ }}"),
    t!("C22" 0 0 "x = {set m(⟨par⟩){}}"),
    t!("C22" 0 0 "x = {get m(⟨par⟩){}}"),
    t!("C22" 0 0 "x = {⟨tok⟩ ⟨tok⟩ a}"),
    t!("C22" 0 0 "x = {⟨tok⟩ ⟨tok⟩ (){}}"),
    t!("C22" 0 0 "x = {a ⟨tok⟩ ⟨tok⟩}"),
    t!("C22" 0 0 "x = [⟨expr⟩]"),
    t!("C22" 0 0 "x = [⟨ex⟩, ⟨ex⟩]"),
    t!("C22" 0 0 "x = [⟨pc⟩⟨pc⟩a⟨pc⟩⟨pc⟩]"),
    t!("C22" 0 0 "x = [,⟨ex⟩,,⟨ex⟩,]"),
    t!("C22" 0 0 "x = [...⟨ex⟩, ...⟨ex⟩]"),
    t!("C22" 0 0 "x = ⟨lit⟩"),
    t!("C22" 0 0 "x = [⟨lit⟩, ⟨lit⟩]"),
    t!("C22" 0 0 "x = {async⟨ws1⟩a⟨ws1⟩(){}, get⟨ws1⟩b⟨ws1⟩(){}}"),
    t!("C22" 0 0 "x = {a: {⟨pr⟩}, b: [⟨ex⟩]}"),
    t!("C22" 0 0 "({⟨pr⟩}).a = {⟨pr⟩}"),
    t!("C22" 0 1 "x = {⟨tok⟩ ⟨tok⟩ ⟨tok⟩}"),
    t!("C22" 0 1 "x = {⟨prop⟩, ⟨prop⟩}"),
    t!("C22" 0 1 "x = [⟨tok⟩ ⟨tok⟩ ⟨tok⟩]"),
    t!("C22" 0 0 "x = {⟨!stat⟩⟨nl⟩⟨!key⟩⟨!pars⟩{}}"),
    t!("C22" 0 0 "x = {⟨tok⟩⟨nl⟩*⟨nl⟩⟨key⟩(){}}"),
    t!("C22" 0 0 "⟨!hc<#1⟩{⟨pr⟩, ⟨pr⟩}⟨!hc>#1⟩"),
    t!("C22" 0 0 "⟨!hc<#1⟩[⟨ax⟩, ⟨ax⟩]⟨!hc>#1⟩"),
    t!("C22" 0 0 "⟨!es<#1⟩({⟨prop⟩})⟨!es>#1⟩ ⟨opr⟩ a"),
    t!("C22" 0 0 "for (x = {[⟨ax⟩]: ⟨ax⟩, m(a = ⟨ax⟩){}};;) ;"),
    t!("C22" 0 0 "x = {a: ⟨!ec<#1⟩⟨ax⟩⟨!ec>#1⟩, b}"),
    t!("C22" 0 0 "x = {[⟨!ec<#1⟩⟨ax⟩⟨!ec>#1⟩]: b}"),
    t!("C22" 0 0 "x = [a, ⟨!ec<#1⟩⟨ax⟩⟨!ec>#1⟩, b]"),
    t!("C22" 0 0 "x = {⟨stat⟩ ⟨lit⟩(a){}}"),
    t!("C22" 0 0 "x = {⟨key⟩: a, ⟨key⟩}"),
    t!("C22" 0 0 "x = {get⟨nl⟩⟨key⟩⟨nl⟩⟨pars⟩{}, set⟨nl⟩⟨key⟩⟨pars⟩{}}"),
    // C23: modules
    t!("C23" 2 0 "import ⟨imp⟩"),
    t!("C23" 2 0 "export ⟨exp⟩"),
    t!("C23" 1 0 "import ⟨imp⟩; export ⟨exp⟩"),
    t!("C23" 1 0 "import ⟨imp⟩\nimport ⟨imp⟩"),
    t!("C23" 1 0 "export ⟨exp⟩\n⟨line⟩"),
    t!("C23" 2 0 "⟨mod⟩ ⟨mod⟩"),
    t!("C23" 1 0 "import {⟨tok⟩ ⟨tok⟩} from 'a'"),
    t!("C23" 1 0 "export {⟨tok⟩ ⟨tok⟩} from 'a'"),
    t!("C23" 1 0 "export {⟨tok⟩ ⟨tok⟩}"),
    t!("C23" 1 0 "import ⟨tok⟩ ⟨tok⟩ 'a'"),
    t!("C23" 1 0 "import ⟨tok⟩ ⟨tok⟩ from 'a'"),
    t!("C23" 1 0 "export ⟨tok⟩ ⟨tok⟩"),
    t!("C23" 1 0 "export ⟨tok⟩ a ⟨tok⟩ b"),
    t!("C23" 1 0 "export default ⟨expr⟩"),
    t!("C23" 1 0 "export default ⟨expr⟩⟨sep⟩⟨line⟩"),
    t!("C23" 1 0 "export default ⟨tok⟩ ⟨tok⟩"),
    t!("C23" 1 0 "import {⟨word⟩} from 'a'"),
    t!("C23" 1 0 "import {⟨word⟩ as ⟨word⟩, a} from 'a'"),
    t!("C23" 1 0 "import * as ⟨word⟩ from 'a'"),
    t!("C23" 1 0 "import ⟨word⟩, {⟨word⟩} from 'a'"),
    t!("C23" 1 0 "export {⟨word⟩, ⟨word⟩ as ⟨word⟩} from 'a'"),
    t!("C23" 1 0 "export {a as ⟨kw⟩}"),
    t!("C23" 2 0 "⟨stmt⟩"),
    t!("C23" 2 0 "{ import ⟨imp⟩ }"),
    t!("C23" 2 0 "function f(){ export ⟨exp⟩ }"),
    t!("C23" 1 0 "import '⟨str⟩⟨str⟩'"),
    t!("C23" 1 0 "export * from '\\⟨esc⟩a'"),
    t!("C23" 1 1 "export ⟨tok⟩ ⟨tok⟩ ⟨tok⟩"),
    t!("C23" 1 1 "import ⟨tok⟩ ⟨tok⟩ ⟨tok⟩ 'a'"),
    t!("C23" 1 1 "import {⟨tok⟩ ⟨tok⟩ ⟨tok⟩} from 'a'"),
    t!("C23" 1 0 "import ⟨imp⟩⟨sep⟩⟨line⟩"),
    t!("C23" 1 0 "⟨mod⟩ ⟨mod⟩ ⟨mod⟩"),
    t!("C23" 1 0 "import a⟨ws1⟩,⟨ws1⟩{b⟨nl⟩as⟨nl⟩c⟨nl⟩}⟨ws1⟩from⟨nl⟩\"d\""),
    t!("C23" 1 0 "export⟨ws1⟩default⟨ws1⟩⟨kind⟩ ⟨word⟩(){}"),
    t!("C23" 1 0 "export ⟨kind⟩ ⟨word⟩(a){}"),
    t!("C23" 1 0 "import {⟨word⟩, ⟨word⟩ as ⟨word⟩,} from \"a\""),
    t!("C23" 1 0 "export default ⟨!ec<#1⟩⟨ax⟩⟨!ec>#1⟩"),
    t!("C23" 1 0 "export default ⟨!fc<#1⟩⟨par⟩⟨!fc>#1⟩"),
    t!("C23" 1 0 "⟨!sc<#1⟩export default a⟨!sc>#1⟩"),
    t!("C23" 1 0 "⟨!sc<#1⟩import \"a\"⟨!sc>#1⟩"),
    t!("C23" 1 0 "export default ⟨word⟩ ⟨opr⟩ ⟨ax⟩"),
    t!("C23" 1 0 "export var ⟨bd⟩ = ⟨ax⟩, ⟨bd⟩"),
    t!("C23" 1 0 "⟨!ss<#1⟩⟨ctx⟩⟨!ss>#1⟩"),
    t!("C23" 1 0 "import a from \"b\"\n⟨un2⟩; ⟨strict⟩"),
    t!("C23" 1 0 "export default ⟨ctx⟩"),
    t!("C23" 1 0 "export var a = ⟨ctx⟩"),
    t!("C23" 1 0 "export ⟨ctx⟩"),
    t!("C23" 1 0 "'x', ⟨ctx⟩"),
    t!("C23" 1 0 "'x'\n⟨ctx⟩"),
    t!("C23" 1 0 "import a from 'b'; ⟨ctx⟩"),
    t!("C23" 1 0 "export default ⟨word⟩ function(){}"),
    t!("C23" 1 0 "export ⟨word⟩ function a(){}"),
    t!("C23" 1 0 "export default ⟨!fb<#1⟩⟨ctx⟩⟨!fb>#1⟩"),
    // C24: where an error is reported
    t!("C24" 2 0 "⟨!pre⟩⟨lt⟩⟨!pre⟩\n⟪⟨off⟩"),
    t!("C24" 0 0 "a⟨lt⟩⟨lt⟩;⟨lt⟩⟨lt⟩⟪⟨off⟩"),
    t!("C24" 0 0 "⟨{300⟩⟨!lt#1⟩⟨}⟩⟪⟨off⟩"),
    t!("C24" 0 0 "⟨{300⟩ ⟨}⟩⟪⟨off⟩"),
    t!("C24" 0 0 "⟨{300⟩a;⟨lt#1⟩⟨}⟩a;⟪⟨off⟩"),
    t!("C24" 0 0 "a⟨c⟩⟨c⟩\n⟪)"),
    t!("C24" 0 0 "`⟨tm⟩⟨tm⟩⟨tm⟩`\n⟪)"),
    t!("C24" 0 0 "'⟨str⟩⟨str⟩⟨str⟩'\n ⟪)"),
    t!("C24" 0 0 "/*⟨cm⟩⟨cm⟩⟨cm⟩⟨cm⟩*/ ; ⟪)"),
    t!("C24" 0 0 "//⟨cm⟩⟨cm⟩⟨cm⟩⟨cm⟩\n;⟪]"),
    t!("C24" 0 0 "⟨stmt⟩\n⟨st⟩\n ⟪)"),
    t!("C24" 2 0 "⟨v⟩\n⟪)"),
    t!("C24" 2 1 "⟨w⟩\n⟪)"),
    t!("C24" 0 0 "/*⟨v⟩*/ ; ⟪)"),
    t!("C24" 0 1 "/*⟨w⟩*/ ; ⟪)"),
    t!("C24" 0 0 "'⟨v⟩' ; ⟪)"),
    t!("C24" 0 1 "'⟨w⟩' ; ⟪)"),
    t!("C24" 0 0 "'\\⟨v⟩' ; ⟪)"),
    t!("C24" 0 1 "'\\⟨w⟩' ; ⟪)"),
    t!("C24" 0 0 "/⟨v⟩/ ; ⟪)"),
    t!("C24" 0 1 "/⟨w⟩/ ; ⟪)"),
    t!("C24" 0 0 "`⟨v⟩` ; ⟪)"),
    t!("C24" 0 1 "`⟨w⟩` ; ⟪)"),
    t!("C24" 0 0 "`\\⟨v⟩` ; ⟪)"),
    t!("C24" 0 1 "`\\⟨w⟩` ; ⟪)"),
    t!("C24" 0 0 "⟨expr⟩\n;\t⟪)"),
    t!("C24" 0 0 "⟨lit⟩ ; ⟪]"),
    t!("C24" 0 0 "/⟨re⟩⟨re⟩⟨re⟩/g ; ⟪)"),
    t!("C24" 0 0 "\\u00⟨hex⟩⟨hex⟩ ; ⟪)"),
    t!("C24" 0 0 "a\\u{⟨hex⟩⟨hex⟩} ; ⟪)"),
    t!("C24" 0 0 "⟨!sc<#1⟩a⟨!sc>#1⟩\n ⟪)"),
    t!("C24" 0 0 "⟨!sc<#1⟩a⟨!sc>#1⟩\n;⟪⟨off⟩"),
    t!("C24" 0 0 "x = ⟨!ec<#1⟩`\n`⟨!ec>#1⟩\n;⟪⟨off⟩"),
    t!("C24" 0 0 "⟨un2⟩\n; ⟪⟨off⟩"),
    t!("C24" 0 0 "x = [⟨!es<#1⟩/a/\n⟨!es>#1⟩]⟨lt⟩;⟪⟨off⟩"),
    // C25: nesting
    t!("C25" 0 0 "x = ⟨!open1#1⟩⟨!open1#2⟩⟨!open1#3⟩a⟨!close1#3⟩⟨!close1#2⟩⟨!close1#1⟩ ⟨tok⟩ b"),
    t!("C25" 0 0 "x = ⟨!open1#1⟩⟨!open1#2⟩⟨!open1#3⟩a⟨!close1#3⟩⟨!close1#2⟩⟨!close1#1⟩ = b"),
    t!("C25" 0 0 "⟨!open1#1⟩⟨!open1#2⟩⟨!open1#3⟩a⟨!close1#3⟩⟨!close1#2⟩⟨!close1#1⟩ => b"),
    t!("C25" 0 0 "⟨!hs<#1⟩⟨!es<#2⟩⟨!es<#3⟩⟨ax⟩⟨!es>#3⟩⟨!es>#2⟩⟨!hs>#1⟩"),
    t!("C25" 0 1 "⟨!hs<#1⟩⟨!ec<#2⟩⟨!ec<#3⟩⟨ax⟩⟨!ec>#3⟩⟨!ec>#2⟩⟨!hs>#1⟩"),
    t!("C25" 0 1 "⟨!es<#1⟩⟨!es<#2⟩⟨!es<#3⟩a⟨!es>#3⟩⟨!es>#2⟩⟨!es>#1⟩ ⟨tok⟩ b"),
    t!("C25" 0 0 "⟨!es<#1⟩⟨!es<#2⟩a⟨!es>#2⟩⟨!es>#1⟩ ⟨tok⟩ b"),
    t!("C25" 0 0 "⟨!ss<#1⟩⟨!ss<#2⟩⟨!ss<#3⟩⟨st⟩⟨!ss>#3⟩⟨!ss>#2⟩⟨!ss>#1⟩"),
    t!("C25" 0 1 "⟨!sc<#1⟩⟨!sc<#2⟩⟨!sc<#3⟩⟨st⟩⟨!sc>#3⟩⟨!sc>#2⟩⟨!sc>#1⟩"),
    t!("C25" 0 0 "⟨!ss<#1⟩⟨!hs<#2⟩⟨!es<#3⟩⟨ax⟩⟨!es>#3⟩⟨!hs>#2⟩⟨!ss>#1⟩"),
    t!("C25" 0 0 "⟨!ss<#1⟩x = ⟨!es<#2⟩⟨!es<#3⟩await a⟨!es>#3⟩⟨!es>#2⟩⟨!ss>#1⟩"),
    t!("C25" 0 0 "⟨!ss<#1⟩x = ⟨!es<#2⟩⟨!es<#3⟩yield⟨!es>#3⟩⟨!es>#2⟩⟨!ss>#1⟩"),
    t!("C25" 0 1 "⟨!ss<#1⟩x = ⟨!es<#2⟩⟨!es<#3⟩⟨ctx⟩⟨!es>#3⟩⟨!es>#2⟩⟨!ss>#1⟩"),
    t!("C25" 0 0 "⟨!es<#1⟩() => { ⟨!sc<#2⟩a⟨!sc>#2⟩ ⟨ctx⟩ }⟨!es>#1⟩"),
    t!("C25" 0 1 "⟨!es<#1⟩⟨!es<#2⟩⟨!es<#3⟩⟨!es<#4⟩a⟨!es>#4⟩⟨!es>#3⟩⟨!es>#2⟩⟨!es>#1⟩ ⟨tok⟩ b"),
    t!("C25" 0 0 "⟨{70⟩⟨!es<#1⟩⟨}⟩⟨ax⟩⟨{70⟩⟨!es>#1⟩⟨}⟩"),
    t!("C25" 0 0 "⟨{70⟩⟨!ss<#1⟩⟨}⟩a⟨{70⟩⟨!ss>#1⟩⟨}⟩ ⟨tok⟩"),
    t!("C25" 0 0 "⟨{300⟩⟨!es<#1⟩⟨}⟩a⟨{300⟩⟨!es>#1⟩⟨}⟩"),
    t!("C25" 0 0 "⟨{300⟩⟨!ss<#1⟩⟨}⟩a⟨{300⟩⟨!ss>#1⟩⟨}⟩"),
    t!("C25" 0 0 "⟨{20⟩⟨!es<#1⟩⟨!es<#2⟩⟨}⟩a⟨{20⟩⟨!es>#2⟩⟨!es>#1⟩⟨}⟩"),
    t!("C25" 0 0 "⟨{20⟩⟨!ss<#1⟩⟨!hs<#2⟩⟨}⟩a⟨{20⟩⟨!hs>#2⟩⟨!ss>#1⟩⟨}⟩"),
    t!("C25" 0 0 "⟨{300⟩⟨!ec<#1⟩⟨}⟩a⟨{300⟩⟨!ec>#1⟩⟨}⟩"),
    t!("C25" 0 0 "⟨{300⟩⟨!sc<#1⟩⟨}⟩a⟨{300⟩⟨!sc>#1⟩⟨}⟩"),
    t!("C25" 0 0 "⟨!sc<#1⟩{ ⟨!sc<#2⟩a⟨!sc>#2⟩ ⟨ctx⟩ }⟨!sc>#1⟩"),
    t!("C25" 0 0 "⟨!sc<#1⟩{ x = ⟨!es<#2⟩a⟨!es>#2⟩; ⟨ctx⟩ }⟨!sc>#1⟩"),
    t!("C25" 0 0 "⟨un2⟩\n⟨un2⟩\n⟨tok⟩ a"),
    t!("C25" 0 0 "⟨!sc<#1⟩⟨!sc<#2⟩a⟨!sc>#2⟩⟨!sc>#1⟩ ⟨line⟩"),
    // C26: the WebAssembly wrapper (h_wasm)
    t!("C26" 2 0 "⟨stmt⟩"),
    t!("C26" 2 0 "x = ⟨expr⟩"),
    t!("C26" 2 0 "import ⟨imp⟩"),
    t!("C26" 2 0 "export ⟨exp⟩"),
    t!("C26" 2 0 "a;\n'⟨str⟩⟨str⟩' ⟨tok⟩ b"),
    t!("C26" 2 0 "⟨v⟩ = ⟨num⟩⟨num⟩⟨num⟩"),
    t!("C26" 2 0 "/⟨re⟩⟨re⟩/ ⟨tok⟩"),
    t!("C26" 2 0 "`⟨tm⟩⟨tm⟩` ⟨tok⟩"),
    t!("C26" 2 0 "await ⟨tok⟩ ⟨tok⟩"),
    t!("C26" 2 0 "yield ⟨tok⟩ ⟨tok⟩"),
    // C27: what an error says
    t!("C27" 0 0 "⟨!ss<#1⟩⟨slip⟩⟨!ss>#1⟩"),
    t!("C27" 1 0 "⟨!ss<#1⟩⟨slip⟩⟨!ss>#1⟩"),
    t!("C27" 0 0 "'use strict'; ⟨!sc<#1⟩⟨slip⟩⟨!sc>#1⟩"),
    t!("C27" 0 0 "⟨!fb<#1⟩⟨slip⟩⟨!fb>#1⟩"),
    t!("C27" 0 0 "⟨!fb<#1⟩'use strict'; ⟨slip⟩⟨!fb>#1⟩"),
    t!("C27" 0 0 "⟨!fx<#1⟩⟨slip⟩⟨!fx>#1⟩"),
    t!("C27" 0 0 "x = ⟨!fx<#1⟩⟨slip⟩⟨!fx>#1⟩"),
    t!("C27" 0 0 "⟨!ss<#1⟩⟨!ss<#2⟩⟨slip⟩⟨!ss>#2⟩⟨!ss>#1⟩"),
    t!("C27" 0 0 "⟨!fb<#1⟩⟨!ss<#2⟩⟨slip⟩⟨!ss>#2⟩⟨!fb>#1⟩"),
    t!("C27" 0 0 "⟨pre⟩\n⟨slip⟩"),
    t!("C27" 0 0 "⟨ws1⟩⟨ws1⟩⟨slip⟩"),
    t!("C27" 0 0 "⟨stmt⟩ ⟨slip⟩"),
    t!("C27" 0 0 "⟨slip⟩ ⟨tok⟩"),
    t!("C27" 2 0 "⟨ctx⟩"),
    t!("C27" 0 0 "⟨!ss<#1⟩⟨ctx⟩⟨!ss>#1⟩"),
    t!("C27" 0 0 "⟨!fb<#1⟩⟨ctx⟩⟨!fb>#1⟩"),
    t!("C27" 0 0 "while (a) { ⟨fx<#1⟩⟨ctx⟩⟨fx>#1⟩ }"),
    t!("C27" 0 0 "⟨dir⟩; ⟨strict⟩"),
    t!("C27" 0 0 "x = ⟨mid⟩ ⟨bin1⟩ a ⟨asg⟩ b"),
    t!("C27" 0 0 "x = a ⟨bin1⟩ ⟨mid⟩ = b"),
    t!("C27" 0 0 "function f() { ⟨dir⟩ } ⟨strict⟩"),
    t!("C27" 1 0 "⟨strict⟩"),
    t!("C27" 0 1 "function f() { ⟨dir⟩; ⟨strict⟩ } ⟨slip⟩"),
    t!("C27" 0 0 "function f() { 'use strict' } ⟨strict⟩"),
    t!("C27" 0 0 "⟨mid⟩ ⟨asg⟩ a"),
    t!("C27" 0 0 "⟨mid⟩++"),
    t!("C27" 0 0 "++⟨mid⟩"),
    t!("C27" 0 0 "--⟨mid⟩"),
    t!("C27" 0 0 "⟨mid⟩--"),
    t!("C27" 0 0 "x = ⟨mid⟩ ⟨asg⟩ a"),
    t!("C27" 0 1 "x = ⟨mid⟩ ⟨bin⟩ ⟨mid⟩ ⟨asg⟩ a"),
    t!("C27" 0 0 "x = ⟨un⟩ ⟨mid⟩ ⟨asg⟩ a"),
    t!("C27" 0 0 "x = ⟨un⟩ ++⟨mid⟩"),
    t!("C27" 0 0 "⟨!hs<#1⟩⟨mid⟩++⟨!hs>#1⟩"),
    t!("C27" 0 0 "⟨!hs<#1⟩⟨mid⟩ = b⟨!hs>#1⟩"),
    t!("C27" 0 0 "⟨!es<#1⟩--⟨mid⟩⟨!es>#1⟩"),
    t!("C27" 0 0 "⟨!es<#1⟩⟨mid⟩ += a⟨!es>#1⟩"),
    t!("C27" 0 0 "for (⟨mid⟩ of a) ;"),
    t!("C27" 0 0 "for (⟨mid⟩ in a) ;"),
    t!("C27" 0 0 "for (⟨mid⟩⟨sep2⟩a;) ;"),
    t!("C27" 0 0 "for (⟨hd⟩⟨sep2⟩⟨mid⟩) ;"),
    t!("C27" 0 0 "for (⟨head⟩⟨sep2⟩a;) ;"),
    t!("C27" 0 0 "for (⟨mid⟩ = a⟨sep2⟩b) ;"),
    t!("C27" 0 0 "⟨vk⟩ ⟨bind⟩⟨sep2⟩a"),
    t!("C27" 0 0 "⟨vk⟩ ⟨bd⟩, ⟨bd⟩"),
    t!("C27" 0 0 "⟨vk⟩ ⟨bd⟩ = 1, ⟨bd⟩"),
    t!("C27" 0 0 "for (⟨vk⟩ ⟨bd⟩⟨sep2⟩a;) ;"),
    t!("C27" 0 0 "for (⟨vk⟩ ⟨bd⟩, ⟨bd⟩; ;) ;"),
    t!("C27" 0 0 "⟨decl⟩; ⟨decl⟩"),
    t!("C27" 0 0 "switch (a) { ⟨cs⟩ ⟨cs⟩ ⟨cs⟩ }"),
    t!("C27" 0 0 "switch (a) { ⟨cs⟩ default: switch (b) { ⟨cs⟩ ⟨cs⟩ } ⟨cs⟩ }"),
    t!("C27" 0 0 "throw⟨ws1⟩⟨ex⟩"),
    t!("C27" 0 0 "throw⟨ws1⟩⟨ws1⟩a"),
    t!("C27" 0 0 "⟨!sc<#1⟩throw⟨ws1⟩a⟨!sc>#1⟩"),
    t!("C27" 0 0 "if (a) ⟨kind⟩ ⟨tok⟩ () {}"),
    t!("C27" 0 0 "l: ⟨kind⟩ ⟨tok⟩ () {}"),
    t!("C27" 2 0 "⟨!sc<#1⟩⟨kind⟩ f() {}⟨!sc>#1⟩"),
    t!("C27" 2 0 "⟨kind⟩ () {}"),
    t!("C27" 0 0 "⟨!ss<#1⟩⟨kind⟩ () {}⟨!ss>#1⟩"),
    t!("C27" 0 0 "⟨kind⟩ ⟨tok⟩ () {}"),
    t!("C27" 1 0 "export ⟨kind⟩ () {}"),
    t!("C27" 1 0 "export default ⟨kind⟩ () {}"),
    t!("C27" 0 0 "'use strict'; ⟨!sc<#1⟩⟨kind⟩ f() {}⟨!sc>#1⟩"),
    t!("C27" 0 0 "'use strict'; ⟨!sc<#1⟩l: ⟨kind⟩ f() {}⟨!sc>#1⟩"),
    t!("C27" 0 0 "class A { ⟨stat⟩ ⟨key⟩(a) {} }"),
    t!("C27" 0 0 "class A { ⟨stat⟩ ⟨key⟩() {} }"),
    t!("C27" 0 0 "class A { static ⟨key⟩ ⟨tok⟩ () {} }"),
    t!("C27" 0 0 "x = class { m() {} ⟨stat⟩ ⟨key⟩(a) { ⟨slip⟩ } }"),
    t!("C27" 1 0 "⟨word⟩"),
    t!("C27" 1 0 "⟨word⟩ = a"),
    t!("C27" 1 0 "⟨vk⟩ ⟨word⟩ = a"),
    t!("C27" 1 0 "(⟨word⟩) => 1"),
    t!("C27" 1 0 "⟨word⟩ => 1"),
    t!("C27" 1 0 "function ⟨word⟩(⟨word⟩) {}"),
    t!("C27" 1 0 "⟨word⟩: ;"),
    t!("C27" 1 0 "({⟨word⟩})"),
    t!("C27" 1 0 "({⟨word⟩: a, ⟨word⟩})"),
    t!("C27" 1 0 "[⟨word⟩] = a"),
    t!("C27" 1 0 "({⟨word⟩} = a)"),
    t!("C27" 1 0 "({a: ⟨word⟩} = b)"),
    t!("C27" 1 0 "⟨!pn<#1⟩⟨word⟩⟨!pn>#1⟩ = a"),
    t!("C27" 1 0 "⟨!dc<#1⟩⟨word⟩⟨!dc>#1⟩"),
    t!("C27" 1 0 "⟨!es<#1⟩⟨word⟩⟨!es>#1⟩"),
    t!("C27" 1 0 "class ⟨word⟩ {}"),
    t!("C27" 1 0 "x = class ⟨word⟩ { ⟨word⟩() {} }"),
    t!("C27" 1 0 "import ⟨word⟩ from 'a'"),
    t!("C27" 1 0 "import * as ⟨word⟩ from 'a'"),
    t!("C27" 1 0 "import {a as ⟨word⟩} from 'a'"),
    t!("C27" 1 0 "try {} catch (⟨word⟩) {}"),
    t!("C27" 1 0 "while (a) ⟨jmp⟩ ⟨word⟩"),
    t!("C27" 0 0 "class A extends ⟨word⟩ { m(⟨word⟩) {} }"),
    t!("C27" 0 0 "class A { [⟨word⟩]() { ⟨word⟩ } }"),
    t!("C27" 0 0 "x = function() { 'use strict'; ⟨word⟩ }; ⟨word⟩"),
    t!("C27" 1 0 "⟨!es<#1⟩⟨pid⟩⟨!es>#1⟩"),
];

/// Programs whose every one-character edit is judged (C01).
pub static EDITS: &[Edit] = &[
    Edit { m: false, t: 0, s: "for (let [a, {b = 1}] of c) if (d) f(...e); else g => ({h})" },
    Edit { m: false, t: 0, s: "class A extends B { static async *m(a = 1, ...[b]) { yield* `x${c}y` } }" },
    Edit { m: false, t: 0, s: "var a = /[/]\\//g / 2, b = '\\u{61}\\x41\\\n', c = 0x1F + 1.5e3" },
    Edit { m: true, t: 0, s: "import a, {b as c} from 'd'; export default async (e) => await f" },
    Edit { m: false, t: 0, s: "l: do { switch (a) { case 1: continue l; default: break } } while (b)" },
    Edit { m: false, t: 0, s: "x = {get a() { return }, set b(c) {}, [d]: e ? f : g, 'h'() {}, ...i}" },
    Edit { m: false, t: 0, s: "/* c */ try { throw new a.b(c) } catch { // d\n} finally { e++ }" },
    Edit { m: false, t: 1, s: "'use strict'; (function* f([a, ...b], {c: d}) { var e = yield f; return typeof e })()" },
    Edit { m: true, t: 1, s: "export {a as b, c} from 'd'; export function f() {} export * from 'g'\nexport const h = 1" },
    Edit { m: false, t: 1, s: "async function f() { await a ** b, await c; for (;;) (async x => x)`a${b}c${d}e` }" },
    Edit { m: false, t: 1, s: "if (a) { debugger } else while (b --> c) ; [d, e.f, {g = 1}] = h = i => j, k" },
    Edit { m: false, t: 1, s: "var \\u0061b = a in b instanceof c, d = !e >>> -f !== +g && ~h || void 0" },
];
