"""Programs whose every allocation point is a collection point (G01): fresh operands everywhere, so that the objects
at risk are reachable only from registers, operand stacks, C++ locals or half-built data."""

# ---- T0: primitives, reader, expander, compiler; only the libraries of primitives are loaded
L3 = "(list 1 (list 2 'b) \"c\")"
LI = "(iota 5)"
S3 = "(string #\\a #\\b #\\c)"
V3 = "(vector 1 (list 2 3) \"z\")"
BIG = "(expt 7 40)"
NBIG = "(- (expt 7 39))"
RAT = "(/ (expt 3 30) 7)"
ALIST = "(list (cons 'a (list 1)) (cons 'b (list 2)))"

def numbers():
    o = []
    ns = ["5", "-7", BIG, NBIG, RAT, "(/ 22 7)", "2.5", "(sqrt 2)", "(make-rectangular 1 (/ 1 2))", "(make-rectangular 1.5 2)"]
    reals = ns[:8]; ints = ns[:4]
    for f in "+ - * / =".split():
        for a in ns:
            for b in ns: o.append("(%s %s %s)" % (f, a, b))
    for f in "< <= > >= max min expt".split():
        for a in reals:
            for b in ("5", "-7", NBIG, "(/ 22 7)", "2.5"):
                if f == "expt" and b == NBIG: continue
                if f == "expt" and a[0] == "(" and b == "-7" and "expt" in a: continue
                o.append("(%s %s %s)" % (f, a, b))
    for f in "quotient remainder modulo gcd lcm bitwise-and bitwise-ior bitwise-xor".split():
        for a in ints:
            for b in ints: o.append("(%s %s %s)" % (f, a, b))
    for a in ints:
        for k in ("3", "-3", "100"): o.append("(bit-shift %s %s)" % (a, k))
        for f in "bitwise-not bit-count bit-width exact-integer? odd? even?".split(): o.append("(%s %s)" % (f, a))
    for f in "zero? positive? negative? abs floor ceiling truncate round numerator denominator exact inexact number->string rational? integer? real? exact? inexact? finite? infinite? nan? exp log sin cos tan asin acos atan sqrt".split():
        for a in reals: o.append("(%s %s)" % (f, a))
    for f in "real-part imag-part magnitude angle number? complex? number->string exp log sqrt".split():
        for a in ns[8:]: o.append("(%s %s)" % (f, a))
    for f in "sinh cosh tanh asinh acosh atanh expm1 log1p erf erfc tgamma lgamma".split():
        for a in ("0.5", "(sqrt 2)"): o.append("(%s %s)" % (f, a))
    o += ["(atan 1 2)", "(atan (sqrt 2) 3)", "(ldexp 1.5 3)", "(nextafter 1. 2.)", "(copysign 1. -2.)", "(exact-integer-square-root (expt 7 41))", "(exact-integer-square-root 17)",
          "(make-polar 1 2)", "(number->string (expt 7 40) 16)", "(number->string (/ -3 7) 2)", "(string->number \"123456789012345678901234567890\")", "(string->number \"-3/7\")", "(string->number \"1e30\")",
          "(string->number \"1+2i\")", "(string->number \"ff\" 16)", "(string->number \"zz\")", "(+ (expt 2 70) (- (expt 2 70)) 1.5 (/ 1 3))", "(* (/ 1 3) (expt 3 30) 2.5)", "(max 1 (expt 2 80) (/ 1 3))",
          "(binary64-remquo 7.5 2.)", "(binary64-max 1. 2. 3.)", "(binary64-min 1. 2.)", "(binary64-fused-multiply-add 1. 2. 3.)", "(binary64-integral-part 2.5)", "(binary64-normalized-fraction 10.)"]
    return o

def data():
    o = []
    for p in ("car", "cdr", "cadr", "cddr", "caadr", "cdadr", "null?", "list?", "pair?", "length", "length+", "reverse", "list-copy", "last", "last-pair", "first", "second", "third", "circular-list?", "dotted-list?", "null-list?", "not-pair?"):
        o.append("(%s %s)" % (p, L3))
    o += ["(reverse! %s)" % L3, "(append %s %s %s)" % (L3, LI, L3), "(append (list 1 2) 3)", "(append '() %s '())" % L3, "(append! %s %s %s)" % (L3, LI, L3), "(append-reverse %s %s)" % (LI, L3), "(append-reverse! %s %s)" % (LI, L3),
          "(concatenate (list %s %s))" % (LI, L3), "(concatenate! (list %s %s %s))" % (LI, L3, LI), "(make-list 4 %s)" % L3, "(make-list 3)", "(iota 4)", "(iota 4 (expt 2 70))", "(iota 3 (/ 1 3) (/ 1 7))",
          "(list-ref %s 1)" % L3, "(list-tail %s 1)" % L3, "(take %s 2)" % L3, "(take! %s 2)" % L3, "(take-right %s 2)" % L3, "(drop %s 1)" % L3, "(drop-right %s 1)" % L3, "(drop-right! %s 1)" % L3,
          "(memq 'b (list 'a 'b 'c))", "(memv %s (list 1 %s 3))" % (BIG, BIG), "(assq 'b %s)" % ALIST, "(assv %s (list (list 1 2) (list %s 4)))" % (BIG, BIG), "(alist-cons %s %s %s)" % (L3, S3, ALIST), "(alist-copy %s)" % ALIST,
          "(cons* 1 %s %s)" % (L3, L3), "(xcons %s %s)" % (L3, S3), "(cons %s %s)" % (L3, V3), "((lambda (x) (set-car! x %s) x) %s)" % (L3, LI), "((lambda (x) (set-cdr! x %s) x) %s)" % (L3, LI),
          "((lambda (x) (car (cdr (cdr (cdr x))))) (circular-list 1 %s))" % L3, "(list %s %s %s)" % (L3, S3, V3),
          "(box-ref (box %s))" % L3, "((lambda (b) (box-set! b %s) b) (box 1))" % L3, "(box? (box 1))"]
    for e in ("eq?", "eqv?", "equal?"):
        for x in (L3, S3, V3, BIG, RAT, "(sqrt 2)", "(lambda (x) x)", "(u8vector 1 2)"):
            o.append("(%s %s %s)" % (e, x, x)); o.append("((lambda (x) (%s x x)) %s)" % (e, x))
    o += ["(string-length %s)" % S3, "(string-ref %s 1)" % S3, "((lambda (s) (string-set! s 1 #\\x3bb) s) %s)" % S3, "(string-append %s %s \"\" %s)" % (S3, S3, S3), "(string->list %s)" % S3, "(string->list %s 1)" % S3, "(string->list %s 1 2)" % S3,
          "(list->string (list #\\a #\\x3bb))", "(string-copy %s)" % S3, "(string-copy %s 1 3)" % S3, "((lambda (s) (string-copy! s 1 %s) s) (string-append %s %s))" % (S3, S3, S3), "((lambda (s) (string-fill! s #\\x1d11e) s) %s)" % S3, "(make-string 3 #\\a)", "(string #\\a)",
          "(symbol->string 'abc)", "(string->symbol %s)" % S3, "(string->symbol (string-append %s \"-fresh1\"))" % S3, "(string=? %s %s)" % (S3, S3), "(string<? %s (string #\\b))" % S3,
          "(vector %s %s)" % (L3, S3), "(make-vector 3 %s)" % L3, "(vector-ref %s 1)" % V3, "((lambda (v) (vector-set! v 1 %s) v) %s)" % (L3, V3), "(vector->list %s)" % V3, "(vector->list %s 1)" % V3, "(vector->list %s 1 2)" % V3,
          "(list->vector %s)" % L3, "(vector-copy %s)" % V3, "(vector-copy %s 1 3)" % V3, "((lambda (v) (vector-copy! v 0 %s 1 3) v) (make-vector 5 0))" % V3, "(vector-append %s %s)" % (V3, V3), "((lambda (v) (vector-fill! v %s) v) %s)" % (L3, V3),
          "(vector->string (vector #\\a #\\b))", "(string->vector %s)" % S3, "(vector-length %s)" % V3,
          "(u8vector->string (u8vector 97 98))", "(string->u8vector %s)" % S3, "(char->integer #\\a)", "(integer->char 955)", "(char-upcase #\\x3bb)", "(digit-value #\\5)"]
    for t in "s8 s16 s32 s64 u8 u16 u32 u64 f32 f64".split():
        x = "(%svector 1 2 3)" % t
        o += [x, "(make-%svector 3 7)" % t, "(%svector-ref %s 1)" % (t, x), "((lambda (v) (%svector-set! v 1 9) v) %s)" % (t, x), "(%svector-copy %s)" % (t, x), "(%svector-copy %s 1 2)" % (t, x), "((lambda (v) (%svector-copy! v 1 %s 0 2) v) %s)" % (t, x, x),
              "(%svector-append %s %s)" % (t, x, x), "(%svector->list %s)" % (t, x), "(list->%svector (list 4 5 6))" % t, "(%svector-length %s)" % (t, x)]
    o += ["(u64vector-ref (u64vector 18446744073709551615) 0)", "(s64vector->list (s64vector -9223372036854775808 9223372036854775807))", "(u64vector->list (u64vector (expt 2 63) (- (expt 2 64) 1)))"]
    return o

TEXTS = ["(a . b)", "(1 (2 3) . 4)", "#(1 #(2) \\\"s\\\" a)", "#u8(1 2 255)", "\\\"abc\\\\n\\\\x3bb;\\\"", "#\\\\a", "#\\\\newline", "#\\\\x3bb", "'a", "`(a ,b ,@c)", "#;(a b) c", "#|x #|y|# z|# d", ";line\\n e", "|a b|", "123456789012345678901234567890", "3/7", "-1.5e3", "1+2i", "#e1.5", "#xff", "#t", "#false", "()", "(#;a)", "#0=(1 . #0#)", "#0=#(1 #1=(2) #1#)", "(#0=(1) #0#)", "+inf.0", "(quote)", "fresh-symbol-%d", "#(", "(a . )", "\\\"abc", "#\\\\nonesuch", "#<", "(1 . 2 3)", "#u8(a)", "1/0", "", ")", "(a .", "|b", "#\\\\"]

def ports():
    o = []
    for k, t in enumerate(TEXTS):
        if "%d" in t: t = t % k
        o.append("((lambda (p) ((lambda (x) ((lambda (y) (list x y)) (read p))) (read p))) (open-input-string \"%s \"))" % t)
    o += ["((lambda (p) (list (get-char p) (peek-char p) (get-string 2 p) (get-line p) (get-line p) (get-char p))) (open-input-string \"abcde\\nxyz\"))",
          "((lambda (p) (list (get-u8 p) (peek-u8 p) (get-u8vector 2 p) (get-u8 p))) (open-input-u8vector (u8vector 1 2 3)))",
          "((lambda (p) (put-char #\\a p) (put-string (string #\\b #\\x3bb) p) (write (list 1 \"s\" #\\a 'sym 1.5 (vector 1 (u8vector 2)) (/ 1 3) (expt 7 40)) p) (write-simple (list 1 (list 2)) p) (get-output-string p)) (open-output-string))",
          "((lambda (p) (put-u8 1 p) (put-u8vector (u8vector 2 3) p) (get-output-u8vector p)) (open-output-u8vector))",
          "((lambda (p x) (set-cdr! x x) (write x p) (get-output-string p)) (open-output-string) (list 1))",
          "((lambda (p x) (write (list x x (vector x)) p) (get-output-string p)) (open-output-string) (list 1 2))",
          "((lambda (p) (list (input-port? p) (output-port? p) (port? p) (textual-port? p) (binary-port? p) (open? p))) (open-input-string (string #\\a)))",
          "(eof-object? (eof-object))", "(begin (close (open-input-string \"a\")) 1)", "(error-object? (error-object \"m\" 1 (list 2)))", "(error-object \"m\" %s %s)" % (L3, V3),
          "(pair? (features))", "(get-environment-variable \"NONESUCH\")", "(pair? (command-line))"]
    return o

def core():
    """Forms the expander and the compiler treat, as top-level forms."""
    o = ["(define x%d 1) (set! x%d (list x%d 2)) x%d",
         "((lambda args args) 1 2 3)", "((lambda (a . r) (list a r)) 1 2 3)", "((lambda (a b) (if a b a)) 1 2)", "((lambda (x) (set! x (list x)) x) (list 1))",
         "(((lambda (x) (lambda (y) (set! x (cons y x)) x)) (list 1)) (list 2))",
         "(letrec ((f (lambda (n) (if (= n 0) (list n) (cons n (f (- n 1))))))) (f 4))",
         "(letrec ((e (lambda (n) (if (= n 0) #t (o (- n 1))))) (o (lambda (n) (if (= n 0) #f (e (- n 1)))))) (list (e 3) (o 3)))",
         "((lambda (n) (define a (list n)) (define (b x) (cons x a)) (set! a (list 0 n)) (b n)) 5)",
         "((lambda (f) (list (f 1))) (lambda (x) (call-with-current-continuation! (lambda (k) (list 1 (k (list 2 x)))))))",
         "((lambda (k n) (set! n (call-with-current-continuation! (lambda (c) (set! k c) (list 0)))) (if (< (length n) 4) (k (cons 1 n)) n)) #f #f)",
         "(call-with-current-continuation! (lambda (k) ((lambda (x) (k x)) (list 1 2))))",
         "(quote (1 (2 . 3) #(4 \"x\")))", "(quote #0=(1 . #0#))", "(begin (list 1) (list 2))", "(if #f #f)",
         "(conditional-expand (meevax (list 1)) (else (list 2)))", "(conditional-expand ((and r7rs (not foo)) (list 1)))",
         "(current 0)", "(begin (install 2 (list 1)) (current 2))", "((lambda (old) (install 1 (list (cons 'a 'b))) ((lambda (x) (install 1 old) x) (current 1))) (current 1))",
         "(define-syntax m%d (lambda (form use mac) (cons 'list (cdr form)))) (m%d 1 (m%d 2 3) \"x\")",
         "(define-syntax s%d (er-macro-transformer (lambda (form rename compare) (list (rename 'if) (cadr form) (cons (rename 'list) (cddr form)) (compare 'a (car (cdr form))))))) (s%d #t 1 2 (s%d #f 2))",
         "(define-syntax t%d (sc-macro-transformer (lambda (form env) (list 'list 1 (make-syntactic-closure env '() (cadr form)))))) ((lambda (list) (t%d list)) (vector 1 2))",
         "(define-syntax u%d (rsc-macro-transformer (lambda (form env) (list (make-syntactic-closure env '() 'list) (cadr form))))) ((lambda (z) (u%d z)) (vector 1 2))",
         "(let-syntax ((foo (er-macro-transformer (lambda (f r c) (list (r 'cons) (cadr f) (r 'foo2)))))) ((lambda (foo2 x) (foo x)) 1 2))" if False else "(let-syntax ((foo (er-macro-transformer (lambda (f r c) (list (r 'cons) (cadr f) 'y))))) ((lambda (y cons) (foo 5)) (list 1) 2))",
         "(letrec-syntax ((my-or (er-macro-transformer (lambda (f r c) (if (null? (cdr f)) #f (list (list (r 'lambda) (list (r 't)) (list (r 'if) (r 't) (r 't) (cons (r 'my-or) (cddr f)))) (cadr f))))))) ((lambda (t if) (my-or #f t)) (list 1 2) 3))",
         "((lambda (x) (define-syntax swap (er-macro-transformer (lambda (f r c) (list (r 'set!) 'x (list (r 'cons) (list (r 'list) 1) 'x))))) (swap) (swap) x) (list 0))",
         "(eval '((lambda (x) (list x x)) (quote (1 2))) (interaction-environment))",
         "(eval (list '+ 1 2) (environment '(meevax number)))", "(eval '(cons 1 2) (environment '(only (meevax pair) cons)))", "(eval '(k 1 2) (environment '(rename (meevax pair) (cons k))))", "(eval '(p:cons 1 2) (environment '(prefix (meevax pair) p:)))", "(eval '(cons 1 2) (environment '(except (meevax pair) car)))",
         "(expand '(lambda (x) x) (interaction-environment))",
         "(define-library (tmp l%d) (import (meevax core) (meevax pair) (meevax list)) (export f%d (rename g%d h%d)) (begin (define (f%d x) (list x x)) (define g%d (list 1 2)))) (import (tmp l%d)) (list (f%d h%d) h%d)",
         "(define-library (tmp q%d) (import (meevax core) (meevax list) (meevax macro-transformer)) (export mm%d) (begin (define hidden (list 'h)) (define-syntax mm%d (er-macro-transformer (lambda (f r c) (list (r 'list) (r 'hidden) (cadr f))))))) (import (prefix (tmp q%d) z)) (zmm%d 5)",
         "(define-library (tmp i%d) (import (meevax core) (meevax list)) (export v%d) (begin (define v%d (list 1)))) (import (only (tmp i%d) v%d)) (import (rename (tmp i%d) (v%d w%d))) (list v%d w%d)",
         "(throw (list 1 2))", "(car 1 . 2)" if False else "(vector-ref (vector) 'a)", "(undefined-variable-%d)", "((list 1 2) 3)", "(quotient 1 0)", "(integer->char 'a)", "(string->symbol 5)",
         "(begin (kernel-exception-handler-set! (lambda (e) (list 'handled (error-object? e)))) ((lambda (x) (kernel-exception-handler-set! 0) x) 1))" if False else "(transformer? 1)",
         "(identifier->symbol 'abc)", "(define-library (tmp ce%d) (cond-expand ((and r7rs (not foo)) (import (meevax core) (meevax list)) (export ce%d)) (else (import (nonesuch)))) (cond-expand ((library (meevax pair)) (import (only (meevax pair) cons)) (begin (define ce%d (list 1 (cons 2 3))))))) (import (tmp ce%d)) ce%d", "(procedure? car)", "(closure? (lambda () 1))", "(list (continuation? 1) (identifier? 'a) (syntactic-closure? 2))",
         ]
    return o

T0_IMPORTS = "".join("(import (meevax %s))" % x for x in "binary32,binary64,boolean,box,character,context,comparator,core,environment,error,file,instruction,integer32,list,number,pair,port,procedure,read,string,symbol,syntactic-closure,system,time,vector,vector homogeneous,write".split(",")) + "(import (verif))\n"

def t0(repo, light=False):
    lib = open(repo + "/library/meevax.ss").read()
    pre = lib + T0_IMPORTS + "(import (only (meevax macro-transformer) sc-macro-transformer rsc-macro-transformer er-macro-transformer))\n"
    exprs = ["(ev %s)" % e for e in (numbers()[::4] if light else numbers()) + data() + ports()]
    for k, e in enumerate(core()):
        e = e.replace("%d", str(k))
        i = split_last(e)
        exprs.append(e[:i] + "(ev " + e[i:] + ")")
    return pre, exprs

def split_last(e):
    """Index where the last datum of the text begins."""
    depth, start, i, instr, begin = 0, 0, 0, False, None
    while i < len(e):
        ch = e[i]
        if instr:
            if ch == "\\": i += 1
            elif ch == '"': instr = False
        elif ch == '"':
            if depth == 0 and begin is None: begin = i
            instr = True
        elif ch == "#" and e[i + 1] == "\\": i += 2
        elif ch == "(":
            if depth == 0 and (begin is None or e[i - 1] == " "): begin = i
            depth += 1
        elif ch == ")": depth -= 1
        elif ch == " ":
            pass
        elif depth == 0 and (i == 0 or e[i - 1] == " "): begin = i
        i += 1
    return begin or 0

# ---- T2: control, in an environment as small as possible; the window covers the execution only
def control_preamble(repo):
    return "".join(open(repo + "/library/%s.ss" % l).read() for l in "meevax srfi-39 srfi-45".split()) + T0_IMPORTS + """
(import (meevax continuation) (meevax apply) (meevax map) (srfi 39) (srfi 45))
(define p (make-parameter (list 'p) (lambda (x) (list 'conv x))))
(define (with-handler h thunk)
  ((lambda (old)
     (dynamic-wind (lambda () (install 2 (cons h old))) thunk (lambda () (install 2 old))))
   (current 2)))
(define (raise* x)
  ((lambda (hs) (dynamic-wind (lambda () (install 2 (cdr hs))) (lambda () ((car hs) x)) (lambda () (install 2 hs))))
   (current 2)))
(kernel-exception-handler-set! raise*)
(define (catch f thunk) (call-with-current-continuation (lambda (k) (with-handler (lambda (e) (k (f e))) thunk))))
"""

CONTROL = [(1, "(list 1)", ()), (1, "(list x (p))", ()), (1, "(begin (set! x (cons 'n x)) x)", ()),
     (1, "(cons {} {})", ("E", "E")),
     (1, "((lambda (x) (vector x {})) {})", ("E", "E")),
     (1, "(call-with-current-continuation (lambda (k) (set! k0 k) {}))", ("E",)),
     (1, "(call-with-current-continuation (lambda (k) (cons 'never (k {}))))", ("E",)),
     (1, "(again {})", ("E",)),
     (1, "(dynamic-wind (lambda () (ev 'in x)) (lambda () {}) (lambda () (set! x (list 'after))))", ("E",)),
     (1, "(with-handler (lambda (e) (list 'h e {})) (lambda () (cons 'b (raise* {}))))", ("E", "E")),
     (1, "(catch (lambda (e) (list 'g e {})) (lambda () (cons 'b (raise* {}))))", ("E", "E")),
     (1, "(catch (lambda (e) (list 'err {})) (lambda () (car (quotient (length {}) 0))))", ("E", "E")),
     (1, "(parameterize ((p {})) (cons (p) {}))", ("E", "E")),
     (1, "(force (delay {}))", ("E",)),
     (1, "(force (lazy (delay {})))", ("E",)),
     (1, "(apply list {} (map (lambda (y) (list y x)) {}))", ("E", "E")),
     (1, "(letrec ((loop (lambda (i a) (if (< i 3) (loop (+ i 1) (cons i a)) a)))) (loop 0 {}))", ("E",)),
     (1, "(letrec ((f (lambda (y) (if (< (length y) 4) (f (cons 'z y)) (cons y {}))))) (f (list 'i)))", ("E",)),
     ]
def control_program(e):
    return ("(define (thunk) ((lambda (x k0 n) (define (again v) (if k0 (if (< n 2) (begin (set! n (+ n 1)) (k0 (list v n))) v) v)) ((lambda (v) (ev v x) (again (list 'again)) (list v x (p))) %s)) (list 'x) #f 0))" % e, "(ev (thunk))")

# ---- T3: the rest of R7RS, in the full environment
R7 = [
 "(define-record-type r%d (mk%d a b) r%d? (a a%d) (b b%d sb%d!))|(let ((r (mk%d (list 1) (list 2)))) (sb%d! r (list 3)) (list (a%d r) (b%d r) (r%d? r) (r%d? 1)))",
 "|(let-values (((a b) (values (list 1) (list 2))) ((c . d) (values 3 (list 4) 5))) (list a b c d))",
 "|(let*-values (((a b) (values (list 1) (list 2))) ((x y) (values b a))) (list x y))",
 "(define-values (dv%d . dr%d) (values (list 1) (list 2) 3))|(list dv%d dr%d)",
 "(define cl%d (case-lambda ((a) (list 'one a)) ((a b) (list 'two a b)) ((a . r) (list 'more a r))))|(list (cl%d 1) (cl%d 1 (list 2)) (cl%d 1 2 (list 3)))",
 "|(do ((i 0 (+ i 1)) (l '() (cons (list i) l))) ((= i 4) l))", "|(case (car (list 'b)) ((a) (list 1)) ((b c) => (lambda (x) (list x 2))) (else 3))", "|(cond ((assv 'b (list (list 'a 1) (list 'b 2))) => cdr) (else 1))",
 "|`(1 ,(list 2) ,@(list 3 (list 4)) #(5 ,(list 6) ,@(list 7)) . ,(list 8))", "|(let loop ((i 0) (acc (list))) (if (< i 5) (loop (+ i 1) (cons (make-vector i (list i)) acc)) acc))",
 "|(let ((p (open-output-string))) (write (list 'a \"b\" (vector 1.5 (/ 1 3))) p) (newline p) (write-string \"xyz\" p) (write-char #\\q p) (display (list 1 \"s\") p) (get-output-string p))",
 "|(let ((p (open-input-string \"(a b) \\\"c\\\" 1.5 rest of line\\nnext\"))) (let* ((a (read p)) (b (read p)) (c (read p)) (d (read-char p)) (e (read-line p)) (f (peek-char p)) (g (read-string 2 p)) (h (read-string 9 p))) (list a b c d e f g h (eof-object? (read-char p)))))",
 "|(let ((p (open-output-bytevector))) (write-u8 1 p) (write-bytevector (bytevector 2 3) p) (get-output-bytevector p))", "|(let ((p (open-input-bytevector (bytevector 1 2 3)))) (list (read-u8 p) (peek-u8 p) (read-bytevector 2 p)))",
 "|(call-with-port (open-input-string \"(x y)\") read)", "|(string-map char-upcase (string #\\a #\\b))", "|(string-map (lambda (a b) (if (char<? a b) a b)) \"abz\" \"baa\")", "|(let ((l '())) (string-for-each (lambda (c) (set! l (cons (list c) l))) \"abc\") l)",
 "|(vector-map (lambda (x y) (list x y)) (vector 1 2) (vector (list 3) 4))", "|(let ((l '())) (vector-for-each (lambda (x) (set! l (cons (list x) l))) (vector 1 (list 2))) l)", "|(map (lambda (x y) (cons x y)) (list 1 (list 2)) (list 3 4))", "|(let ((l '())) (for-each (lambda (x y) (set! l (cons (list x y) l))) (list 1 2) (list 3 4)) l)",
 "|(list-copy (list 1 (list 2)))", "|(vector->list (list->vector (list 1 (list 2))))", "|(string->utf8 (utf8->string (bytevector 65 206 187)))", "|(bytevector-append (bytevector 1 2) (bytevector 3))", "|(exact-integer-sqrt 17)", "|(call-with-values (lambda () (floor/ (expt 7 30) (- (expt 3 20)))) list)",
 "|(guard (e ((error-object? e) (list (error-object-message e) (error-object-irritants e)))) (error \"msg\" (list 1) (vector 2)))", "|(guard (e ((symbol? e) (list e)) (else (list 'else e))) (dynamic-wind (lambda () (ev 'in)) (lambda () (raise (list 1))) (lambda () (ev 'out))))",
 "|(guard (e (#f 1)) (guard (e2 ((number? e2) (list 'again e2))) (raise 5)))", "|(with-exception-handler (lambda (e) (list 'h e)) (lambda () (guard (e (#f 1)) (list 'r (raise-continuable (list 2))))))",
 "|(guard (e ((read-error? e) (list 'read))) (read (open-input-string \"(1 . \")))", "|(guard (e ((error-object? e) (list (quote file)))) (open-input-file \"/tmp/nonexistent-file\"))",
 "(define pp%d (make-parameter 1 (lambda (x) (list x))))|(list (pp%d) (parameterize ((pp%d (list 2))) (list (pp%d) (parameterize ((pp%d 3)) (pp%d)))))",
 "(define ss%d (letrec ((from (lambda (n) (delay (cons n (from (+ n 1))))))) (from 0)))|(let loop ((s ss%d) (n 0)) (if (< n 5) (loop (cdr (force s)) (+ n 1)) (car (force s))))", "(define (lp%d n) (delay-force (if (= n 0) (delay (list 'done)) (lp%d (- n 1)))))|(force (lp%d 10))", "|(force (make-promise (list 1)))",
 "|(eval '(let ((x (list 1))) (cons x x)) (environment '(scheme base)))", "|(eval '(call/cc (lambda (k) (list (k (list 1))))) (environment '(scheme base)))",
 "|(let ((k #f) (n 0)) (let ((v (list n (call/cc (lambda (c) (set! k c) (list 'first)))))) (set! n (+ n 1)) (if (< n 3) (k (list n v)) v)))",
 "(define (gen%d l) (define return #f) (define (next) (call/cc (lambda (r) (set! return r) (for-each (lambda (x) (call/cc (lambda (k) (set! next (lambda () (k #f))) (return (list x))))) l) (return 'eof)))) (lambda () (call/cc (lambda (r) (set! return r) (next)))))|(let* ((g (gen%d (list 1 2))) (a (g)) (b (g))) (list a b))",
 "(define (tree%d n) (if (= n 0) '() (cons (tree%d (- n 1)) (tree%d (- n 1)))))|(tree%d 4)", "|(let ((x (list 1 2))) (set-cdr! (cdr x) x) (list (car x) (cadr x) (caddr x)))", "|(equal? (list 1 (vector (list 2) \"x\")) (list 1 (vector (list 2) \"x\")))", "|(assoc (list 2) (list (list (list 1) 'a) (list (list 2) 'b)))", "|(member (list 2) (list (list 1) (list 2) 3))",
 "|(string->symbol (string-append \"sym\" (number->string 12345%d)))", "|(symbol->string (string->symbol (list->string (list #\\a #\\space))))", "|(number->string (expt 3 100))", "|(char-upcase #\\a)", "|(let ((s (make-string 3 #\\-))) (string-copy! s 1 \"ab\") (string-fill! s #\\z 2) s)",
 "|(let ((v (make-vector 5 0))) (vector-copy! v 1 (vector (list 1) (list 2))) (vector-fill! v (list 9) 3) v)", "|(features)", "|(exact->inexact (/ 1 3))" if False else "|(inexact (/ 1 3))", "|(read-error? (list 1))", "|(let ((p (open-input-string \"#0=(1 . #0#)\"))) (car (cdr (read p))))",
 "|(let ((p (open-output-string)) (x (list 1 2))) (write-shared (list x x) p) (write-simple (list 1 2) p) (set-cdr! (cdr x) x) (write x p) (get-output-string p))",
]
def r7programs():
    out = []
    for k, t in enumerate(R7):
        a, b = t.replace("%d", str(k)).split("|", 1)
        out.append((a, "(ev %s)" % b))
    return out

EXPANSIONS = [
 "(ev (let ((x (list 1)) (y 2)) (list x y)))", "(ev (let loop ((i 0)) (if (< i 2) (loop (+ i 1)) (list i))))", "(ev (do ((i 0 (+ i 1))) ((= i 2) (list i))))", "(ev (case (car (list 2)) ((1 2) (list 'x)) (else 1)))", "(ev (cond ((assq 'a (list (list 'a 1))) => cadr) (else 2)))",
 "(ev (let*-values (((a b) (values 1 2))) (list a b)))", "(ev `(1 ,(list 2) ,@(list 3)))", "(ev (let-syntax ((swap! (syntax-rules () ((_ a b) (let ((tmp a)) (set! a b) (set! b tmp)))))) (let ((tmp (list 1)) (other 2)) (swap! tmp other) (list tmp other))))",
 "(define-syntax my-or%d (syntax-rules () ((_) #f) ((_ e) e) ((_ e r ...) (let ((t e)) (if t t (my-or%d r ...)))))) (ev (let ((t (list 5))) (my-or%d #f t)))", "(ev (guard (e ((pair? e) (list e))) (raise (list 1))))", "(ev (parameterize () (list 1)))",
 "(define-syntax my-let%d (syntax-rules () ((_ ((n v) ...) b ...) ((lambda (n ...) b ...) v ...)))) (ev (my-let%d ((a 1) (b (list 2))) (list a b)))", "(define-record-type <rr%d> (mkr%d a) rr%d? (a ra%d sra%d!)) (ev (let ((x (mkr%d (list 1)))) (sra%d! x (list 2)) (ra%d x)))",
 "(ev (let () (define-syntax foo (syntax-rules () ((_ (a b ...) ...) '((b ... a) ...)))) (foo (1 2 3) (4 5))))", "(ev (when (list 1) (list 2)))", "(define-values (q%d w%d) (values (list 1) 2)) (ev (list q%d w%d))", "(ev ((case-lambda ((a) (list a)) ((a b) (list b a))) 1 2))", "(ev (force (delay (list 1))))",
]
