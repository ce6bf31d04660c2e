"""Random Scheme programs in the subset Mes runs; every one prints what it built."""

MODS = {'srfi-1': '(mes-use-module (srfi srfi-1))', 'srfi-9': '(mes-use-module (srfi srfi-9))',
        'srfi-13': '(mes-use-module (srfi srfi-13))', 'srfi-43': '(mes-use-module (srfi srfi-43))', 'srfi-26': '(mes-use-module (srfi srfi-26))',
        'pmatch': '(mes-use-module (mes pmatch))', 'guile': '(mes-use-module (mes guile))',
        'optargs': '(mes-use-module (mes optargs))', 'syntax': '(mes-use-module (mes syntax))', 'match': '(mes-use-module (mes match))'}


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.mods = set()

    def name(self, p='v'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def i(self, a=0, b=20):
        return self.r.randint(a, b)

    def word(self):
        return ''.join(self.r.choice('abcdefghijklmnop') for _ in range(self.i(1, 9)))

    def string(self):
        return '"%s"' % ''.join(self.r.choice('abc XYZ019,;.-_()') for _ in range(self.i(0, 24)))

    def char(self):
        return '#\\' + self.r.choice(['a', 'b', 'z', 'A', '0', 'space', 'newline', 'tab', '(', ')'])

    def atom(self):
        return self.r.choice([lambda: str(self.i(-1000, 100000)), self.string, self.char, self.word,
                              lambda: '#:' + self.word(), lambda: '#t', lambda: '#f', lambda: '()', lambda: '#xff', lambda: '#b101'])()

    def datum(self, d=3):
        if d == 0 or self.r.random() < 0.35:
            return self.atom()
        k = self.r.random()
        xs = [self.datum(d - 1) for _ in range(self.i(0, 4))]
        if k < 0.6:
            return '(' + ' '.join(xs) + ')'
        if k < 0.75 and xs:
            return '(' + ' '.join(xs) + ' . ' + self.atom() + ')'
        if k < 0.95:
            return '#(' + ' '.join(xs) + ')'
        return "'" + self.datum(d - 1)

    # -- snippets: each returns (definitions, expression whose value is printed)
    def s_const(self):
        v = self.name()
        return '(define %s \'%s)' % (v, self.datum(4)), v

    def s_list(self):
        v, n = self.name(), self.i(1, 120)
        return '(define (mk-%s n) (if (= n 0) \'() (cons (list n (* n n) (number->string n)) (mk-%s (- n 1)))))\n(define %s (mk-%s %d))' % (v, v, v, v, n), '(list (length %s) (car %s) (list-ref %s %d) %s)' % (v, v, v, self.i(0, n - 1), v)

    def s_loop(self):
        return '', '(let loop ((i 0) (acc \'())) (if (< i %d) (loop (+ i 1) (cons (+ i %d) acc)) (apply + acc)))' % (self.i(1, 300), self.i())

    def s_mutrec(self):
        a = self.name('f')
        return '(define (%se n) (if (= n 0) #t (%so (- n 1))))\n(define (%so n) (if (= n 0) #f (%se (- n 1))))' % (a, a, a, a), '(list (%se %d) (%so %d))' % (a, self.i(0, 60), a, self.i(0, 60))

    def s_closure(self):
        c = self.name('mk')
        x = self.name('k')
        return '(define (%s n) (lambda (m) (set! n (+ n m)) n))\n(define %s (%s %d))\n(%s %d)' % (c, x, c, self.i(), x, self.i()), '(list (%s %d) (%s %d) ((%s 1) 2))' % (x, self.i(), x, self.i(), c)

    def s_adder_list(self):
        v = self.name()
        return '(define %s (map (lambda (x) (let ((y (* x %d))) (lambda (z) (set! y (+ y z)) (list x y z)))) (iota %d)))' % (v, self.i(1, 9), self.i(1, 12)), '(list (map (lambda (f) (f %d)) %s) (map (lambda (f) (f 1)) %s))' % (self.i(), v, v)

    def s_vector(self):
        v, n = self.name(), self.i(1, 40)
        return '(define %s (make-vector %d %s))\n(let loop ((i 0)) (if (< i %d) (begin (vector-set! %s i (list i (make-vector (modulo i 5) i))) (loop (+ i 2)))))' % (v, n, self.i(), n, v), '(list (vector-length %s) %s (vector->list %s))' % (v, v, v)

    def s_vecmut(self):
        v = self.name()
        n = self.i(2, 12)
        return '(define %s (list->vector (iota %d)))' % (v, n), '(begin (vector-set! %s %d (vector %s %s)) (vector-set! %s %d "s") (let ((x (vector-ref %s %d))) (vector-set! %s 0 x) (eq? x (vector-ref %s 0))))' % (v, self.i(0, n - 1), self.string(), self.i(), v, self.i(0, n - 1), v, self.i(0, n - 1), v, v)

    def s_string(self):
        v = self.name()
        return '(define %s (string-append %s %s (number->string %d)))' % (v, self.string(), self.string(), self.i(-500, 500)), '(list %s (string-length %s) (string->list %s) (list->string (reverse (string->list %s))) (string->symbol %s) (symbol->string (string->symbol %s)) (string=? %s %s))' % ((v,) * 8)

    def s_strbuild(self):
        v = self.name()
        return '(define %s (let loop ((i 0) (s "")) (if (= i %d) s (loop (+ i 1) (string-append s (number->string i) %s)))))' % (v, self.i(1, 40), self.string()), '(list %s (string-length %s) (substring %s 1))' % (v, v, v)

    def s_symbols(self):
        v = self.name()
        return '(define %s (map (lambda (i) (string->symbol (string-append "%s-" (number->string i)))) (iota %d)))' % (v, self.word(), self.i(1, 30)), '(list %s (map (lambda (s) (eq? s (string->symbol (symbol->string s)))) %s) (memq (car %s) %s) (symbol->keyword (car %s)))' % ((v,) * 5)

    def s_hash(self):
        v, n = self.name('h'), self.i(1, 40)
        w = self.word()
        return '(define %s (make-hash-table %s))\n(let loop ((i 0)) (if (< i %d) (begin (hash-set! %s (string-append "%s" (number->string i)) (list i (cons i i))) (hashq-set! %s (string->symbol (string-append "%s" (number->string i))) (vector i)) (loop (+ i 1)))))' % (v, self.r.choice(['10', '100', '1']), n, v, w, v, w), '(list (hash-ref %s "%s%d" #f) (hash-ref %s "nope" \'none) (hashq-ref %s \'%s%d #f) (hashq-get-handle %s \'%s0 #f) (map (lambda (i) (hash-ref %s (string-append "%s" (number->string i)) #f)) (iota %d)))' % (v, w, self.i(0, n - 1), v, v, w, self.i(0, n - 1), v, w, v, w, n)

    def s_callcc(self):
        k = self.name('k')
        c = self.name('c')
        return '(define %s #f)\n(define %s 0)' % (k, c), '(let* ((pre (iota %d)) (x (call-with-current-continuation (lambda (kk) (set! %s kk) 0)))) (set! %s (+ %s 1)) (if (< x %d) (%s (+ x 1)) (list pre x %s)))' % (self.i(1, 10), k, c, c, self.i(1, 8), k, c)

    def s_catch(self):
        return '', '(catch #t (lambda () (let ((l (iota %d))) (throw \'%s (car l) "msg" l))) (lambda (key . args) (list key args)))' % (self.i(1, 20), self.word())

    def s_catchnest(self):
        a, b = self.word(), self.word()
        return '', '(catch \'%s (lambda () (catch \'%s (lambda () (map (lambda (x) (if (> x %d) (throw \'%s x (number->string x)) x)) (iota %d))) (lambda (k . r) (throw \'%s k r)))) (lambda (k . r) (list \'outer k r)))' % (a, b, self.i(0, 8), b, self.i(9, 15), a)

    def s_values(self):
        return '', '(call-with-values (lambda () (values (iota %d) %s (vector %d))) (lambda (a b c) (list c b a)))' % (self.i(1, 30), self.string(), self.i())

    def s_dynwind(self):
        t = self.name('t')
        return '(define %s \'())' % t, '(begin (catch #t (lambda () (dynamic-wind (lambda () (set! %s (cons \'in %s))) (lambda () (set! %s (cons (iota 5) %s)) %s) (lambda () (set! %s (cons \'out %s))))) (lambda (k . r) (set! %s (cons k %s)))) %s)' % (t, t, t, t, self.r.choice(["'ok"]), t, t, t, t, t)

    def s_let_forms(self):
        return '', '(let* ((a %s) (b (list a a)) (c (let ((d b)) (set-car! d %d) d))) (letrec ((f (lambda (n) (if (< n 1) (list b) (cons n (f (- n 1))))))) (let loop ((i 0) (r (f %d))) (if (> i %d) (list a b c r) (loop (+ i 1) (append r (list i)))))))' % (self.string(), self.i(), self.i(1, 30), self.i(1, 15))

    def s_macro(self):
        m = self.name('m')
        return '(define-macro (%s x . body) (list \'let (list (list \'%sx x)) (cons \'begin (map (lambda (e) (list \'list \'%sx e)) body))))' % (m, m, m), '(list (%s %d (+ 1 2) (iota 4)) (map (lambda (z) (%s z (* z z))) (iota %d)))' % (m, self.i(), m, self.i(1, 10))

    def s_qq(self):
        a = self.name('q')
        return '(define %s (iota %d))' % (a, self.i(1, 20)), '`(1 ,(+ 1 %d) ,@%s (nested ,(map (lambda (x) `(,x . ,(* x x))) %s)) #(a ,%s))' % (self.i(), a, a, a)

    def s_assoc(self):
        v = self.name('al')
        n = self.i(1, 25)
        return '(define %s (map (lambda (i) (cons (number->string i) (list i \'x))) (iota %d)))' % (v, n), '(list (assoc "%d" %s) (assoc-ref %s "%d") (assq \'a (list (cons \'b 1) (cons \'a (cons 2 3)))) (member "%d" (map car %s)) (append %s \'(end)))' % (self.i(0, n), v, v, self.i(0, n - 1), self.i(0, n), v, v)

    def s_circular(self):
        v = self.name('ci')
        return '(define %s (list %s))\n(set-cdr! (last-pair %s) %s)' % (v, ' '.join(str(self.i()) for _ in range(self.i(2, 6))), v, v), '(let loop ((i 0) (l %s) (r \'())) (if (= i %d) (list (eq? %s %s) r) (loop (+ i 1) (cdr l) (cons (car l) r))))' % (v, self.i(1, 50), v, v)

    def s_shared(self):
        v = self.name('sh')
        return '(define %s (let* ((x (list 1 2 3)) (v (vector x x)) (s (list x v v))) (lambda (m) (if (eq? m 0) (begin (set-car! x (+ 1 (car x))) s) (list (eq? (car s) (vector-ref v 0)) (eq? (cadr s) (caddr s)) x)))))' % v, '(list (%s 0) (%s 1) (%s 0) (%s 1))' % (v, v, v, v)

    def s_strport(self):
        self.mods.add('simple-format')
        return '', '(with-output-to-string (lambda () (for-each (lambda (x) (display x) (write %s) (write (list x %s))) (iota %d))))' % (self.string(), self.char(), self.i(1, 30))

    def s_strport_in(self):
        self.mods.add('guile')
        return '', '(with-input-from-string %s (lambda () (let* ((a (read-char)) (b (peek-char)) (c (read-string))) (list a b c))))' % ('"' + 'ab' + self.string()[1:])

    def s_read(self):
        d = self.datum(3).replace('\\', '\\\\').replace('"', '\\"')
        return '', '(let* ((p (open-input-string "%s foo (bar . baz) 12")) (o (current-input-port))) (set-current-input-port p) (let* ((a (read)) (b (read)) (c (read)) (d (read))) (set-current-input-port o) (list a b c d)))' % d

    def s_eval(self):
        n = self.name('ev')
        return '(eval \'(define (%s x) (if (= x 0) \'() (cons x (%s (- x 1))))) (current-module))' % (n, n), '(list (eval \'(%s %d) (current-module)) (primitive-eval (list \'+ 1 (list \'length (list \'iota %d)))))' % (n, self.i(1, 40), self.i(1, 20))

    def s_nested_define(self):
        n = self.name('nd')
        return '(define (%s n) (define a (iota n)) (define (g x) (define b (* 2 x)) (lambda () (list a b (h x)))) (define h (lambda (z) (cons z a))) (map (lambda (f) (f)) (map g a)))' % n, '(%s %d)' % (n, self.i(1, 9))

    def s_define_eval(self):
        # definitions whose value is computed by code that itself defines
        n = self.name('de')
        return '(define %s (begin (define %si (map (lambda (x) (* x x)) (iota %d))) (define (%sf x) (cons x %si)) (%sf %d)))' % (n, n, self.i(1, 20), n, n, n, self.i()), '(list %s %si (%sf \'z))' % (n, n, n)

    def s_setbig(self):
        n = self.name('sb')
        return '(define %s \'())\n(let loop ((i 0)) (if (< i %d) (begin (set! %s (cons (make-string (modulo i 7) #\\x) %s)) (loop (+ i 1)))))' % (n, self.i(1, 60), n, n), n

    def s_long(self):
        # long strings and vectors among small objects, held while others come and go
        n = self.name('lg')
        z = self.r.choice([255, 256, 1000, 1023, 1024, 4095, 4096, 4097, 5000, 9000, 20000])
        return '(define %s (list (vector 1 2) (list->string (map (lambda (i) (integer->char (+ 97 (modulo (* i %d) 26)))) (iota %d))) (iota 3)))\n(define %ss (let loop ((s (cadr %s)) (i 0)) (if (> (string-length s) %d) s (loop (string-append s s) (+ i 1)))))\n(define %sv (make-vector %d (list 1 "two")))\n(vector-set! %sv %d %s)' % (n, self.i(1, 25), self.i(20, 90), n, n, z, n, self.r.choice([100, 1000, 3000]), n, self.i(0, 99), n), '(begin (map (lambda (i) (make-string i #\\y)) (iota %d)) (list (string-length %ss) (substring %ss (- (string-length %ss) 30)) (substring %ss %d %d) (vector-length %sv) (vector-ref %sv 7) (equal? (substring %ss 0 9) (substring (cadr %s) 0 9)) (string=? (string-append %ss "z") (string-append %ss "z")) (eq? (cadr %s) (cadr (vector->list (list->vector %s))))))' % (self.i(1, 30), n, n, n, n, z // 2, z // 2 + self.i(1, 60), n, n, n, n, n, n, n, n)

    def s_apply(self):
        return '', '(list (apply + %d (iota %d)) (apply list 1 2 (iota 3)) (apply map list (list (iota 4) (iota 4))) (apply string-append (map number->string (iota %d))))' % (self.i(), self.i(1, 40), self.i(1, 20))

    def s_varargs(self):
        n = self.name('va')
        return '(define (%s a . r) (list r a (length r)))\n(define %sl (lambda x (reverse x)))' % (n, n), '(list (%s %s) (apply %s (iota %d)) (%sl 1 2 3) (apply %sl (iota 9)))' % (n, ' '.join(str(self.i()) for _ in range(self.i(1, 9))), n, self.i(1, 20), n, n)

    def s_case(self):
        return '', '(list (map (lambda (x) (cond ((> x %d) (list \'big x)) (else (case x ((3 4) "3or4") ((5) \'five) (else (- x)))))) (iota %d)) (map (lambda (x) (and x (or #f (* x x)))) (iota %d)) (map (lambda (x) (list (if (not (= x 1)) x))) (iota %d)))' % (self.i(3, 12), self.i(1, 15), self.i(1, 15), self.i(1, 15))

    def s_display(self):
        return '', '(begin (for-each (lambda (x) (display x) (write x) (newline)) (list %s car (lambda (x) x) \'#(1 "s" #\\a) (vector \'a (list "b" #\\c)) (string->list %s))) \'displayed)' % (' '.join("'" + self.datum(2) for _ in range(3)), self.string())

    def s_sort(self):
        v = self.name('so')
        return '(define (ins-%s x l) (if (null? l) (list x) (if (< x (car l)) (cons x l) (cons (car l) (ins-%s x (cdr l))))))' % (v, v), '(let loop ((l (list %s)) (r \'())) (if (null? l) r (loop (cdr l) (ins-%s x r))))'.replace('%s x r', 'VV (car l) r').replace('VV', v) % ' '.join(str(self.i(-99, 99)) for _ in range(self.i(0, 14)))

    def s_numbers(self):
        return '', '(list (+ %d %d) (- %d) (* %d %d) (quotient %d %d) (remainder %d %d) (modulo %d %d) (expt 2 %d) (logand %d %d) (ash %d %d) (string->number "%d") (number->string %d) (max 1 %d) (min 2 %d))' % tuple([self.i(-999, 999), self.i(), self.i(), self.i(-99, 99), self.i(-99, 99), self.i(-999, 999), self.i(1, 30), self.i(-999, 999), self.i(1, 30), self.i(-999, 999), self.i(1, 30), self.i(0, 20), self.i(0, 255), self.i(0, 255), self.i(0, 100), self.i(-3, 8), self.i(-999, 999), self.i(-99, 99), self.i(), self.i()])

    def s_record(self):
        self.mods.add('srfi-9')
        t = self.name('rec')
        return '(define-record-type <%s> (make-%s a b) %s? (a %s-a set-%s-a!) (b %s-b))\n(define %sx (make-%s %s (iota %d)))\n(define %sl (map (lambda (i) (make-%s i %sx)) (iota %d)))' % (t, t, t, t, t, t, t, t, self.string(), self.i(1, 10), t, t, t, self.i(1, 12)), '(begin (set-%s-a! %sx (list \'new %s)) (list (%s? %sx) (%s? 1) (%s-a %sx) (%s-b %sx) (map %s-a %sl) (map (lambda (r) (eq? %sx (%s-b r))) %sl)))' % (t, t, self.string(), t, t, t, t, t, t, t, t, t, t, t, t)

    def s_record_display(self):
        self.mods.add('srfi-9')
        t = self.name('rd')
        return '(define-record-type <%s> (make-%s a b) %s? (a %s-a) (b %s-b))\n(define %sx (make-%s %s (make-%s %d \'%s)))' % (t, t, t, t, t, t, t, self.string(), t, self.i(), self.datum(2)), '(list \'before %sx (list %sx \'mid (vector %sx 1)) \'after "tail")' % (t, t, t)

    def s_srfi1(self):
        self.mods.add('srfi-1')
        return '', '(list (fold cons \'() (iota %d)) (fold-right cons* \'() (iota 5) (iota 5)) (filter (lambda (x) (= 0 (modulo x 3))) (iota %d)) (delete-duplicates (list 1 2 1 3 2)) (append-map (lambda (x) (list x x)) (iota 4)) (find (lambda (x) (> x 3)) (iota 9)) (filter-map (lambda (x) (and (> x 2) (list x))) (iota 7)) (remove (lambda (x) (< x 3)) (iota 9)) (take-while (lambda (x) (< x 4)) (iota 8)) (last (iota %d)))' % (self.i(1, 30), self.i(1, 30), self.i(1, 20))

    def s_srfi13(self):
        self.mods.add('srfi-13')
        s = self.string()
        return '', '(list (string-join (list %s "b" %s) "-") (string-index %s #\\a) (string-split %s #\\space) (string-copy %s) (string-trim-both %s) (string-downcase %s) (string-map char-upcase %s) (string-delete #\\a %s))'.replace(' (string-map char-upcase %s)', '') % ((s,) * 8)

    def s_pmatch(self):
        self.mods.add('pmatch')
        return '', '(map (lambda (x) (pmatch x ((a ,y (b . ,z)) (list \'one y z)) ((,h . ,t) (list \'two h t)) (,o (list \'other o)))) (list \'(a %d (b %d c)) \'(%s q) %d))' % (self.i(), self.i(), self.word(), self.i())

    def s_match(self):
        self.mods.add('match')
        return '', '(map (lambda (x) (match x ((\'a y (\'b . z)) (list \'one y z)) ((h . t) (list \'two h t)) (o (list \'other o)))) (list \'(a %d (b %d c)) \'(%s q) %d))' % (self.i(), self.i(), self.word(), self.i())

    def s_syntax_rules(self):
        self.mods.add('syntax')
        m = self.name('sr')
        return '(define-syntax %s (syntax-rules () ((%s a b) (list b a)) ((%s a) (list a a)) ((%s a b c ...) (cons a (list b c ...)))))' % (m, m, m, m), '(list (%s 1 (iota %d)) (%s "x") (%s 1 2 3 4) (map (lambda (q) (%s q (* q 2))) (iota %d)))' % (m, self.i(1, 10), m, m, m, self.i(1, 8))

    def s_fluid(self):
        f = self.name('fl')
        self.mods.add('fluids')
        return '(define %s (make-fluid (list %d 2)))' % (f, self.i()), '(list (fluid-ref %s) (with-fluid* %s (iota %d) (lambda () (list (fluid-ref %s) (map (lambda (x) (+ x (length (fluid-ref %s)))) (iota 4))))) (fluid-ref %s))' % (f, f, self.i(1, 10), f, f, f)

    def s_struct(self):
        s = self.name('st')
        return '(define %s (make-struct \'%s (list %s %d (iota %d)) #f))' % (s, self.word(), self.string(), self.i(), self.i(1, 10)), '(begin (struct-set! %s 3 (vector 1 2)) (list (struct-length %s) (struct-ref %s 2) (struct-ref %s 3) (struct-ref %s 4)))' % (s, s, s, s, s)

    def s_unread(self):
        self.mods.add('guile')
        return '', '(with-input-from-string %s (lambda () (let* ((a (read-char)) (b (begin (unread-char a) (read-char))) (c (peek-char))) (let loop ((c (read-char)) (r \'())) (if (eof-object? c) (list a b (reverse r)) (loop (read-char) (cons c r)))))))' % ('"q' + self.string()[1:])

    def s_deep(self):
        return '', '(let deep ((n %d)) (if (= n 0) \'(bottom) (let ((r (deep (- n 1)))) (if (> (length r) 5) (list n r) (cons n r)))))' % self.i(1, 150)

    def s_stringlist(self):
        return '', '(map (lambda (s) (list s (string-length s) (string->symbol s))) (map (lambda (i) (list->string (map (lambda (j) (integer->char (+ 97 (modulo (* i j) 26)))) (iota i)))) (iota %d)))' % self.i(1, 20)

    def s_keyword(self):
        w = self.word()
        return '', '(list #:%s (eq? #:%s #:%s) (keyword->symbol #:%s) (symbol->keyword \'%s) (memq #:%s (list 1 #:%s 2)))' % ((w,) * 7)

    def s_gcnow(self):
        v = self.name('g')
        return '(define %s (list (iota %d) (vector %s) %s))\n(gc)' % (v, self.i(1, 50), self.i(), self.string()), '(begin (gc) (list %s (begin (gc) (iota 3)) (let ((f (lambda (x) (gc) (list x)))) (f (f (list %s))))))' % (v, v)

    def s_modvar(self):
        v = self.name('mv')
        return '(module-define! (current-module) \'%s (iota %d))' % (v, self.i(1, 12)), '(list %s (module-ref (current-module) \'%s) (pair? (module-variable (current-module) \'%s)))' % (v, v, v)

    def s_append(self):
        return '', '(list (append (iota %d) (list "x" %s) \'()) (append-reverse (iota %d) (list 1)) (reverse (iota %d)) (list-tail (iota 20) %d) (list-head (iota 20) %d) (last-pair (iota %d)))' % (self.i(), self.string(), self.i(), self.i(), self.i(0, 19), self.i(0, 19), self.i(1, 20))

    def snippets(self):
        return sorted(k for k in dir(self) if k.startswith('s_'))

    def program(self, nmin=2, nmax=7, only=None):
        names = only or self.snippets()
        mode = self.r.random()
        ks = [self.r.choice(names) for _ in range(self.i(nmin, nmax))]
        return self.compose(ks, mode)

    def compose(self, ks, mode):
        defs, exprs = [], []
        for k in ks:
            d, e = getattr(self, k)()
            defs.append(d)
            exprs.append((k, e))
        out = [MODS.get(m) or '(mes-use-module (mes %s))' % m for m in sorted(self.mods)]
        pr = lambda k, e: '(write (quote %s)) (newline) (write %s) (newline)' % (k, e)
        if mode < 0.4:      # make everything first, look at it afterwards
            out += defs + [pr(k, e) for k, e in exprs]
        elif mode < 0.7:
            for d, (k, e) in zip(defs, exprs):
                out += [d, pr(k, e)]
        elif mode < 0.85:   # twice, results held meanwhile
            out += defs
            for n, (k, e) in enumerate(exprs):
                out.append('(define held-%d %s)' % (n, e))
            out += ['(write held-%d) (newline) (display held-%d) (newline)' % (n, n) for n in range(len(exprs))]
        else:               # inside one procedure body
            out += defs
            out.append('(define (body) (let* (%s) (for-each (lambda (x) (write x) (newline)) (list %s))))' % (
                ' '.join('(b%d %s)' % (n, e) for n, (k, e) in enumerate(exprs)), ' '.join('b%d' % n for n in range(len(exprs)))))
            out.append('(body)')
        out.append('(display "end\\n")')
        return '\n'.join(x for x in out if x) + '\n'
