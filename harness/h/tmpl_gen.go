package h

// Generated by tools/gen/gen.py.

type tmpl struct {
	mode, src, pn string
	gaps          []int
}

var tmpls = []tmpl{
	{"p", "$aq = 17", "(block (= (var \"aq\") 17))", []int{0, 3, 4, 5, 6, 8}},
	{"p", "$aq += [7, $bj]", "(block (+= (var \"aq\") (array 7 (var \"bj\"))))", []int{0, 3, 4, 6, 7, 8, 9, 10, 11, 14, 15}},
	{"p", "$aq -= {a => 7}", "(block (-= (var \"aq\") (hash (=> (qn \"a\") 7))))", []int{0, 3, 4, 6, 7, 8, 9, 10, 12, 13, 14, 15}},
	{"p", "$a = $bq + 7 * $cj - 2", "(block (= (var \"a\") (- (+ (var \"bq\") (* 7 (var \"cj\"))) 2)))", []int{0, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13, 14, 15, 18, 19, 22}},
	{"p", "$a = ($bq + 7) * -$cj", "(block (= (var \"a\") (* (paren (+ (var \"bq\") 7)) (- (var \"cj\")))))", []int{0, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 14, 15, 16, 17, 21}},
	{"p", "$a = !$bq and $cj or $d == 7", "(block (= (var \"a\") (or (and (! (var \"bq\")) (var \"cj\")) (== (var \"d\") 7))))", []int{0, 2, 3, 4, 5, 6, 9, 10, 13, 14, 17, 18, 20, 21, 23, 24, 26, 27, 28}},
	{"p", "$a = $bq < 7 and $cj >= 2", "(block (= (var \"a\") (and (< (var \"bq\") 7) (>= (var \"cj\") 2))))", []int{0, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13, 16, 17, 20, 21, 23, 24, 25}},
	{"p", "$a = $bq =~ /xq+y/ or $cj !~ Aqa", "(block (= (var \"a\") (or (=~ (var \"bq\") (regexp \"xq+y\")) (!~ (var \"cj\") (qr \"Aqa\")))))", []int{0, 2, 3, 4, 5, 8, 9, 11, 12, 18, 19, 21, 22, 25, 26, 28, 29, 32}},
	{"p", "$a = $bq in [aq, 'bj', \"cq\"]", "(block (= (var \"a\") (in (var \"bq\") (array (qn \"aq\") \"bj\" \"cq\"))))", []int{0, 2, 3, 4, 5, 8, 9, 11, 12, 13, 15, 16, 17, 21, 22, 23, 27, 28}},
	{"p", "$a = $bq << 7 >> $cj", "(block (= (var \"a\") (>> (<< (var \"bq\") 7) (var \"cj\"))))", []int{0, 2, 3, 4, 5, 8, 9, 11, 12, 13, 14, 16, 17, 20}},
	{"p", "$a = $bq % 7 / 3", "(block (= (var \"a\") (/ (% (var \"bq\") 7) 3)))", []int{0, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13, 14, 15, 16}},
	{"p", "$a = $bq != undef", "(block (= (var \"a\") (!= (var \"bq\") nil)))", []int{0, 2, 3, 4, 5, 8, 9, 11, 12, 17}},
	{"p", "$a = $bq ? { 7 => aq, default => bj }", "(block (= (var \"a\") (? (var \"bq\") [(=> 7 (qn \"aq\")) (=> (default) (qn \"bj\"))])))", []int{0, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 20, 21, 22, 29, 30, 32, 33, 35, 36, 37}},
	{"p", "$a = $bq ? /xq/ => 'bj'", "(block (= (var \"a\") (? (var \"bq\") [(=> (regexp \"xq\") \"bj\")])))", []int{0, 2, 3, 4, 5, 8, 9, 10, 11, 15, 16, 18, 19, 23}},
	{"p", "$a = $bq[7]", "(block (= (var \"a\") (access (var \"bq\") 7)))", []int{0, 2, 3, 4, 5, 9, 10, 11}},
	{"p", "$a = $bq[7, $cj][aq]", "(block (= (var \"a\") (access (access (var \"bq\") 7 (var \"cj\")) (qn \"aq\"))))", []int{0, 2, 3, 4, 5, 9, 10, 11, 12, 15, 17, 19, 20}},
	{"p", "$a = [1, 7, aq]", "(block (= (var \"a\") (array 1 7 (qn \"aq\"))))", []int{0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15}},
	{"p", "$a = [aq => 7, b => 1, 7]", "(block (= (var \"a\") (array (hash (=> (qn \"aq\") 7) (=> (qn \"b\") 1)) 7)))", []int{0, 2, 3, 4, 5, 6, 8, 9, 11, 12, 13, 14, 15, 16, 17, 19, 20, 21, 22, 23, 24, 25}},
	{"p", "$a = {aq => 7, 'bj' => [1], \"c\" => {d => e}}", "(block (= (var \"a\") (hash (=> (qn \"aq\") 7) (=> \"bj\" (array 1)) (=> \"c\" (hash (=> (qn \"d\") (qn \"e\")))))))", []int{0, 2, 3, 4, 5, 6, 8, 9, 11, 12, 13, 14, 15, 19, 20, 22, 23, 24, 25, 26, 27, 28, 31, 32, 34, 35, 36, 37, 38, 40, 41, 42, 43, 44}},
	{"p", "$a = {type => aq, function => b}", "(block (= (var \"a\") (hash (=> (qn \"type\") (qn \"aq\")) (=> (qn \"function\") (qn \"b\")))))", []int{0, 2, 3, 4, 5, 6, 10, 11, 13, 14, 16, 17, 18, 26, 27, 29, 30, 31, 32}},
	{"p", "$a = Aqa::Bja[Aqa, 7]", "(block (= (var \"a\") (access (qr \"Aqa::Bja\") (qr \"Aqa\") 7)))", []int{0, 2, 3, 4, 5, 14, 17, 18, 19, 20, 21}},
	{"p", "$a = ::aq::bj", "(block (= (var \"a\") (qn \"::aq::bj\")))", []int{0, 2, 3, 4, 5, 13}},
	{"p", "$a = $aq::bj", "(block (= (var \"a\") (var \"aq::bj\")))", []int{0, 2, 3, 4, 5, 12}},
	{"p", "$a = $::aq", "(block (= (var \"a\") (var \"::aq\")))", []int{0, 2, 3, 4, 5, 10}},
	{"p", "$a = true", "(block (= (var \"a\") true))", []int{0, 2, 3, 4, 5, 9}},
	{"p", "$a = [false, undef, default]", "(block (= (var \"a\") (array false nil (default))))", []int{0, 2, 3, 4, 5, 6, 11, 12, 13, 18, 19, 20, 27, 28}},
	{"p", "$a = 0x1F", "(block (= (var \"a\") (int {:radix 16 :value 31})))", []int{0, 2, 3, 4, 5, 9}},
	{"p", "$a = 016", "(block (= (var \"a\") (int {:radix 8 :value 14})))", []int{0, 2, 3, 4, 5, 8}},
	{"p", "$a = 1.5e-3", "(block (= (var \"a\") 0.0015))", []int{0, 2, 3, 4, 5, 11}},
	{"p", "$a = -17", "(block (= (var \"a\") -17))", []int{0, 2, 3, 4, 5, 8}},
	{"p", "$a = - $bq", "(block (= (var \"a\") (- (var \"bq\"))))", []int{0, 2, 3, 4, 5, 7, 10}},
	{"p", "$a = *$bq", "(block (= (var \"a\") (unfold (var \"bq\"))))", []int{0, 2, 3, 4, 5, 6, 9}},
	{"p", "$a = 'xq y'", "(block (= (var \"a\") \"xq y\"))", []int{0, 2, 3, 4, 5, 11}},
	{"p", "$a = \"xq y\"", "(block (= (var \"a\") \"xq y\"))", []int{0, 2, 3, 4, 5, 11}},
	{"p", "$a = \"xq ${bj} y\"", "(block (= (var \"a\") (concat \"xq \" (str (var \"bj\")) \" y\")))", []int{0, 2, 3, 4, 5, 17}},
	{"p", "$a = \"xq ${bj.cq(7)} y ${[1, 7]} z\"", "(block (= (var \"a\") (concat \"xq \" (str (call-method {:functor (. (var \"bj\") (qn \"cq\")) :args [7]})) \" y \" (str (array 1 7)) \" z\")))", []int{0, 2, 3, 4, 5, 35}},
	{"p", "$a = \"xq $bj y\"", "(block (= (var \"a\") (concat \"xq \" (str (var \"bj\")) \" y\")))", []int{0, 2, 3, 4, 5, 15}},
	{"p", "$a = \"${bq[7]}\"", "(block (= (var \"a\") (concat (str (access (var \"bq\") 7)))))", []int{0, 2, 3, 4, 5, 15}},
	{"p", "$a = \"${bj.cq}x\"", "(block (= (var \"a\") (concat (str (call-method {:functor (. (var \"bj\") (qn \"cq\")) :args []})) \"x\")))", []int{0, 2, 3, 4, 5, 16}},
	{"p", "$a = \"${if $bq { 7 } else { 1 }}\"", "(block (= (var \"a\") (concat (str (if {:test (var \"bq\") :then [7] :else [1]})))))", []int{0, 2, 3, 4, 5, 33}},
	{"p", "$a = @(END)\n  text q\n  | END\n", "(block (= (var \"a\") (heredoc {:text \"text q\\n\"})))", []int{}},
	{"p", "$a = @(\"END\"/t)\n  a ${bq}\\tb\n  | END\n", "(block (= (var \"a\") (heredoc {:text (concat \"a \" (str (var \"bq\")) \"\\tb\\n\")})))", []int{}},
	{"p", "$a = @(END:jsonq)\ntext j\n- END\n", "(block (= (var \"a\") (heredoc {:syntax \"jsonq\" :text \"text j\"})))", []int{}},
	{"p", "$a = [@(A), @(B)]\none q\nA\ntwo j\nB\n", "(block (= (var \"a\") (array (heredoc {:text \"one q\\n\"}) (heredoc {:text \"two j\\n\"}))))", []int{}},
	{"p", "notice(aq, 7)", "(block (invoke {:functor (qn \"notice\") :args [(qn \"aq\") 7]}))", []int{0, 7, 9, 10, 11, 12, 13}},
	{"p", "notice aq, 7", "(block (invoke {:functor (qn \"notice\") :args [(qn \"aq\") 7]}))", []int{0, 6, 7, 9, 10, 11, 12}},
	{"p", "notice $bq [7]", "(block (invoke {:functor (qn \"notice\") :args [(var \"bq\")]}) (array 7))", []int{0, 6, 7, 10, 11, 12, 13, 14}},
	{"p", "include aq, bj", "(block (invoke {:functor (qn \"include\") :args [(qn \"aq\") (qn \"bj\")]}))", []int{0, 7, 8, 10, 11, 12, 14}},
	{"p", "$a = fooq(7, $bj)", "(block (= (var \"a\") (call {:functor (qn \"fooq\") :args [7 (var \"bj\")]})))", []int{0, 2, 3, 4, 5, 10, 11, 12, 13, 16, 17}},
	{"p", "fooq(7) |$bj| { 7 }", "(block (invoke {:functor (qn \"fooq\") :args [7] :block (lambda {:params {:bj {}} :body [7]})}))", []int{0, 5, 6, 7, 8, 9, 13, 14, 15, 16, 17, 18, 19}},
	{"p", "fooq(7) |Integer $bj, String $c = 'x', *$d| >> Aqa[7] { $c }", "(block (invoke {:functor (qn \"fooq\") :args [7] :block (lambda {:params {:bj {:type (qr \"Integer\")} :c {:type (qr \"String\") :value \"x\"} :d {:splat true}} :returns (access (qr \"Aqa\") 7) :body [(var \"c\")]})}))", []int{0, 5, 6, 7, 8, 9, 16, 17, 20, 21, 22, 28, 29, 31, 32, 33, 34, 37, 38, 39, 40, 43, 44, 46, 47, 51, 52, 53, 54, 55, 56, 58, 59, 60}},
	{"p", "$aq.fooj(7)", "(block (call-method {:functor (. (var \"aq\") (qn \"fooj\")) :args [7]}))", []int{0, 3, 4, 9, 10, 11}},
	{"p", "$aq.fooj |$x| { $x }", "(block (call-method {:functor (. (var \"aq\") (qn \"fooj\")) :args [] :block (lambda {:params {:x {}} :body [(var \"x\")]})}))", []int{0, 3, 4, 8, 9, 10, 13, 14, 15, 16, 18, 19, 20}},
	{"p", "$aq.fooj.barq(7).baz", "(block (call-method {:functor (. (call-method {:functor (. (call-method {:functor (. (var \"aq\") (qn \"fooj\")) :args []}) (qn \"barq\")) :args [7]}) (qn \"baz\")) :args []}))", []int{0, 3, 4, 8, 9, 14, 15, 16, 17, 20}},
	{"p", "$a = $aq.fooj", "(block (= (var \"a\") (call-method {:functor (. (var \"aq\") (qn \"fooj\")) :args []})))", []int{0, 2, 3, 4, 5, 8, 9, 13}},
	{"p", "$a = $aq.type", "(block (= (var \"a\") (call-method {:functor (. (var \"aq\") (qn \"type\")) :args []})))", []int{0, 2, 3, 4, 5, 8, 9, 13}},
	{"p", "$a = fooq($x)[7]", "(block (= (var \"a\") (access (call {:functor (qn \"fooq\") :args [(var \"x\")]}) 7)))", []int{0, 2, 3, 4, 5, 10, 12, 14, 15, 16}},
	{"p", "$a = (fooq)(7)", "(block (= (var \"a\") (call {:functor (paren (qn \"fooq\")) :args [7]})))", []int{0, 2, 3, 4, 5, 6, 10, 12, 13, 14}},
	{"p", "$aq |$x| { 7 }", "(block (invoke {:functor (var \"aq\") :args [] :block (lambda {:params {:x {}} :body [7]})}))", []int{0, 3, 4, 5, 8, 9, 10, 11, 12, 13, 14}},
	{"p", "if $aq { 7 }", "(block (if {:test (var \"aq\") :then [7]}))", []int{0, 2, 3, 6, 7, 8, 9, 10, 11, 12}},
	{"p", "if $aq { 7 } else { $bj }", "(block (if {:test (var \"aq\") :then [7] :else [(var \"bj\")]}))", []int{0, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13, 17, 18, 19, 20, 23, 24, 25}},
	{"p", "if $aq == 7 { 1 } elsif $bj { 2 } else { 3 }", "(block (if {:test (== (var \"aq\") 7) :then [1] :else [(if {:test (var \"bj\") :then [2] :else [3]})]}))", []int{0, 2, 3, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 23, 24, 27, 28, 29, 30, 31, 32, 33, 34, 38, 39, 40, 41, 42, 43, 44}},
	{"p", "if $aq { } elsif $bj { 2 }", "(block (if {:test (var \"aq\") :then [] :else [(if {:test (var \"bj\") :then [2]})]}))", []int{0, 2, 3, 6, 7, 8, 9, 10, 11, 16, 17, 20, 21, 22, 23, 24, 25, 26}},
	{"p", "unless $aq { 7 }", "(block (unless {:test (var \"aq\") :then [7]}))", []int{0, 6, 7, 10, 11, 12, 13, 14, 15, 16}},
	{"p", "unless $aq { 7 } else { 8 }", "(block (unless {:test (var \"aq\") :then [7] :else [8]}))", []int{0, 6, 7, 10, 11, 12, 13, 14, 15, 16, 17, 21, 22, 23, 24, 25, 26, 27}},
	{"p", "case $aq { 7: { 1 } $bj, aq: { 2 } default: { 3 } }", "(block (case (var \"aq\") [{:when [7] :then [1]} {:when [(var \"bj\") (qn \"aq\")] :then [2]} {:when [(default)] :then [3]}]))", []int{0, 4, 5, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 24, 25, 27, 28, 29, 30, 31, 32, 33, 34, 35, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51}},
	{"p", "case $aq { Aqa: { } /xj/: { fooq() } }", "(block (case (var \"aq\") [{:when [(qr \"Aqa\")] :then []} {:when [(regexp \"xj\")] :then [(invoke {:functor (qn \"fooq\") :args []})]}]))", []int{0, 4, 5, 8, 9, 10, 11, 14, 15, 16, 17, 18, 19, 20, 24, 25, 26, 27, 28, 33, 34, 35, 36, 37, 38}},
	{"p", "$a = if $bq { 7 } else { 1 }", "(block (= (var \"a\") (if {:test (var \"bq\") :then [7] :else [1]})))", []int{0, 2, 3, 4, 5, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18, 22, 23, 24, 25, 26, 27, 28}},
	{"p", "$a = case $bq { 7: { 1 } default: { 2 } }", "(block (= (var \"a\") (case (var \"bq\") [{:when [7] :then [1]} {:when [(default)] :then [2]}])))", []int{0, 2, 3, 4, 5, 9, 10, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41}},
	{"p", "class aq { }", "(block (class {:name \"aq\" :body []}))", []int{0, 5, 6, 8, 9, 10, 11, 12}},
	{"p", "class aq::bj { 7 }", "(block (class {:name \"aq::bj\" :body [7]}))", []int{0, 5, 6, 12, 13, 14, 15, 16, 17, 18}},
	{"p", "class aq ($bj, Integer $c = 7, Optional[Aqa] $d = undef) { $bj }", "(block (class {:name \"aq\" :params {:bj {} :c {:type (qr \"Integer\") :value 7} :d {:type (access (qr \"Optional\") (qr \"Aqa\")) :value nil}} :body [(var \"bj\")]}))", []int{0, 5, 6, 8, 9, 10, 13, 14, 15, 22, 23, 25, 26, 27, 28, 29, 30, 31, 40, 43, 44, 45, 47, 48, 49, 50, 55, 56, 57, 58, 59, 62, 63, 64}},
	{"p", "class aq inherits bj { 7 }", "(block (class {:name \"aq\" :parent \"bj\" :body [7]}))", []int{0, 5, 6, 8, 9, 17, 18, 20, 21, 22, 23, 24, 25, 26}},
	{"p", "class aq inherits default { }", "(block (class {:name \"aq\" :parent \"default\" :body []}))", []int{0, 5, 6, 8, 9, 17, 18, 25, 26, 27, 28, 29}},
	{"p", "class aq { class bj { 7 } }", "(block (class {:name \"aq\" :body [(class {:name \"aq::bj\" :body [7]})]}))", []int{0, 5, 6, 8, 9, 10, 11, 16, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27}},
	{"p", "define aq { 7 }", "(block (define {:name \"aq\" :body [7]}))", []int{0, 6, 7, 9, 10, 11, 12, 13, 14, 15}},
	{"p", "define aq::bj (String $cq, $d = [7]) { $cq }", "(block (define {:name \"aq::bj\" :params {:cq {:type (qr \"String\")} :d {:value (array 7)}} :body [(var \"cq\")]}))", []int{0, 6, 7, 13, 14, 15, 21, 22, 25, 26, 27, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 42, 43, 44}},
	{"p", "define aq (*$rest) { }", "(block (define {:name \"aq\" :params {:rest {:splat true}} :body []}))", []int{0, 6, 7, 9, 10, 11, 12, 17, 18, 19, 20, 21, 22}},
	{"p", "node aq { 7 }", "(block (node {:matches [\"aq\"] :body [7]}))", []int{0, 4, 5, 7, 8, 9, 10, 11, 12, 13}},
	{"p", "node aq.bj.c7, 'dq', /ej/, default { 7 }", "(block (node {:matches [\"aq.bj.c7\" \"dq\" (regexp \"ej\") (default)] :body [7]}))", []int{0, 4, 5, 7, 8, 10, 11, 13, 14, 15, 19, 20, 21, 25, 26, 27, 34, 35, 36, 37, 38, 39, 40}},
	{"p", "node 'aq' inherits 'bj' { }", "(block (node {:matches [\"aq\"] :parent \"bj\" :body []}))", []int{0, 4, 5, 9, 10, 18, 19, 23, 24, 25, 26, 27}},
	{"p", "node aq inherits default { }", "(block (node {:matches [\"aq\"] :parent (default) :body []}))", []int{0, 4, 5, 7, 8, 16, 17, 24, 25, 26, 27, 28}},
	{"p", "function aq { 7 }", "(block (function {:name \"aq\" :body [7]}))", []int{0, 8, 9, 11, 12, 13, 14, 15, 16, 17}},
	{"p", "function aq::bj ($cq, Aqa $d = 7) { $cq }", "(block (function {:name \"aq::bj\" :params {:cq {} :d {:type (qr \"Aqa\") :value 7}} :body [(var \"cq\")]}))", []int{0, 8, 9, 15, 16, 17, 20, 21, 22, 25, 26, 28, 29, 30, 31, 32, 33, 34, 35, 36, 39, 40, 41}},
	{"p", "function aq (*$bj) >> Aqa[7] { $bj }", "(block (function {:name \"aq\" :params {:bj {:splat true}} :body [(var \"bj\")] :returns (access (qr \"Aqa\") 7)}))", []int{0, 8, 9, 11, 12, 13, 14, 17, 18, 19, 21, 22, 26, 27, 28, 29, 30, 31, 34, 35, 36}},
	{"t", "plan aq::bj (Aqa $cq = 7) >> String { $cq }", "(block (plan {:name \"aq::bj\" :params {:cq {:type (qr \"Aqa\") :value 7}} :body [(var \"cq\")] :returns (qr \"String\")}))", []int{0, 4, 5, 11, 12, 13, 16, 17, 20, 21, 22, 23, 24, 25, 26, 28, 29, 35, 36, 37, 38, 41, 42, 43}},
	{"p", "application aq { 7 }", "(block (application {:name \"aq\" :body [7]}))", []int{0, 11, 12, 14, 15, 16, 17, 18, 19, 20}},
	{"p", "application aq ($bj, $c = 7) { $bj }", "(block (application {:name \"aq\" :params {:bj {} :c {:value 7}} :body [(var \"bj\")]}))", []int{0, 11, 12, 14, 15, 16, 19, 20, 21, 23, 24, 25, 26, 27, 28, 29, 30, 31, 34, 35, 36}},
	{"p", "site { aq { 'bj': c => 7 } }", "(block (site (resource {:type (qn \"aq\") :bodies [{:title \"bj\" :ops [(=> \"c\" 7)]}]})))", []int{0, 4, 5, 6, 7, 9, 10, 11, 12, 16, 17, 18, 19, 20, 22, 23, 24, 25, 26, 27, 28}},
	{"p", "Aqa produces Bja { c => 7 }", "(block (produces (qr \"Aqa\") [\"Bja\" (=> \"c\" 7)]))", []int{0, 3, 4, 12, 13, 16, 17, 18, 19, 20, 21, 23, 24, 25, 26, 27}},
	{"p", "Aqa consumes Bja { c => $dq, e => 7 }", "(block (consumes (qr \"Aqa\") [\"Bja\" (=> \"c\" (var \"dq\")) (=> \"e\" 7)]))", []int{0, 3, 4, 12, 13, 16, 17, 18, 19, 20, 21, 23, 24, 27, 28, 29, 30, 31, 33, 34, 35, 36, 37}},
	{"p", "type Aqa = Integer[7]", "(block (type-alias \"Aqa\" (access (qr \"Integer\") 7)))", []int{0, 4, 5, 8, 9, 10, 11, 19, 20, 21}},
	{"p", "type Aqa = Bja", "(block (type-alias \"Aqa\" (qr \"Bja\")))", []int{0, 4, 5, 8, 9, 10, 11, 14}},
	{"p", "type Aqa = Object { attributes => { bj => 7 } }", "(block (type-alias \"Aqa\" (access (qr \"Object\") (hash (=> (qn \"attributes\") (hash (=> (qn \"bj\") 7)))))))", []int{0, 4, 5, 8, 9, 10, 11, 17, 18, 19, 20, 30, 31, 33, 34, 35, 36, 38, 39, 41, 42, 43, 44, 45, 46, 47}},
	{"p", "type Aqa = Bja { attributes => { cq => 7 } }", "(block (type-alias \"Aqa\" (access (qr \"Object\") (hash (=> \"parent\" (qr \"Bja\")) (=> (qn \"attributes\") (hash (=> (qn \"cq\") 7)))))))", []int{0, 4, 5, 8, 9, 10, 11, 14, 15, 16, 17, 27, 28, 30, 31, 32, 33, 35, 36, 38, 39, 40, 41, 42, 43, 44}},
	{"p", "type Aqa = { attributes => { bj => 7 } }", "(block (type-alias \"Aqa\" (access (qr \"Object\") (hash (=> (qn \"attributes\") (hash (=> (qn \"bj\") 7)))))))", []int{0, 4, 5, 8, 9, 10, 11, 12, 13, 23, 24, 26, 27, 28, 29, 31, 32, 34, 35, 36, 37, 38, 39, 40}},
	{"p", "type Aqa = [{ attributes => { bj => 7 } }]", "(block (type-alias \"Aqa\" (access (qr \"Object\") (hash (=> (qn \"attributes\") (hash (=> (qn \"bj\") 7)))))))", []int{0, 4, 5, 8, 9, 10, 11, 12, 13, 14, 24, 25, 27, 28, 29, 30, 32, 33, 35, 36, 37, 38, 39, 40, 41, 42}},
	{"p", "type Aqa[bj] = Cqa", "(block (type-mapping (access (qr \"Aqa\") (qn \"bj\")) (qr \"Cqa\")))", []int{0, 4, 5, 9, 11, 12, 13, 14, 15, 18}},
	{"p", "type Aqa { 7 }", "(block (type-definition \"Aqa\" \"\" (block 7)))", []int{0, 4, 5, 8, 9, 10, 11, 12, 13, 14}},
	{"p", "type Aqa inherits Bja { 7 }", "(block (type-definition \"Aqa\" \"Bja\" (block 7)))", []int{0, 4, 5, 8, 9, 17, 18, 21, 22, 23, 24, 25, 26, 27}},
	{"p", "aq { 'bj': c => 7 }", "(block (resource {:type (qn \"aq\") :bodies [{:title \"bj\" :ops [(=> \"c\" 7)]}]}))", []int{0, 2, 3, 4, 5, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19}},
	{"p", "aq { 'bj': c => 7, dq +> [8], * => $e }", "(block (resource {:type (qn \"aq\") :bodies [{:title \"bj\" :ops [(=> \"c\" 7) (+> \"dq\" (array 8)) (splat-hash (var \"e\"))]}]}))", []int{0, 2, 3, 4, 5, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 21, 22, 24, 25, 26, 27, 28, 29, 30, 31, 32, 34, 35, 37, 38, 39}},
	{"p", "aq { ['bj', 'c']: ; default: d => 7; \"e\": * => { f => g } }", "(block (resource {:type (qn \"aq\") :bodies [{:title (array \"bj\" \"c\") :ops []} {:title (default) :ops [(=> \"d\" 7)]} {:title \"e\" :ops [(splat-hash (hash (=> (qn \"f\") (qn \"g\"))))]}]}))", []int{0, 2, 3, 4, 5, 6, 10, 11, 12, 15, 16, 17, 18, 19, 20, 27, 28, 29, 30, 31, 33, 34, 35, 36, 37, 40, 41, 42, 43, 44, 46, 47, 48, 49, 50, 51, 53, 54, 55, 56, 57, 58, 59}},
	{"p", "aq { bj: if => 7, class => 1 }", "(block (resource {:type (qn \"aq\") :bodies [{:title (qn \"bj\") :ops [(=> \"if\" 7) (=> \"class\" 1)]}]}))", []int{0, 2, 3, 4, 5, 7, 8, 9, 11, 12, 14, 15, 16, 17, 18, 23, 24, 26, 27, 28, 29, 30}},
	{"p", "@aq { 'bj': c => 7 }", "(block (resource {:type (qn \"aq\") :bodies [{:title \"bj\" :ops [(=> \"c\" 7)]}] :form \"virtual\"}))", []int{0, 1, 3, 4, 5, 6, 10, 11, 12, 13, 14, 16, 17, 18, 19, 20}},
	{"p", "@@aq { 'bj': c => 7 }", "(block (resource {:type (qn \"aq\") :bodies [{:title \"bj\" :ops [(=> \"c\" 7)]}] :form \"exported\"}))", []int{0, 2, 4, 5, 6, 7, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21}},
	{"p", "@Aqa { b => 7 }", "(block (resource-defaults {:type (qr \"Aqa\") :ops [(=> \"b\" 7)] :form \"virtual\"}))", []int{0, 1, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15}},
	{"p", "Aqa { b => 7, cj => 8 }", "(block (resource-defaults {:type (qr \"Aqa\") :ops [(=> \"b\" 7) (=> \"cj\" 8)]}))", []int{0, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 16, 17, 19, 20, 21, 22, 23}},
	{"p", "Aqa['bj'] { c => 7 }", "(block (resource-override {:resources (access (qr \"Aqa\") \"bj\") :ops [(=> \"c\" 7)]}))", []int{0, 4, 8, 9, 10, 11, 12, 13, 14, 16, 17, 18, 19, 20}},
	{"p", "Aqa[bj, 'c'] { dq +> 7 }", "(block (resource-override {:resources (access (qr \"Aqa\") (qn \"bj\") \"c\") :ops [(+> \"dq\" 7)]}))", []int{0, 4, 6, 7, 8, 11, 12, 13, 14, 15, 17, 18, 20, 21, 22, 23, 24}},
	{"p", "class { 'aq': b => 7 }", "(block (resource {:type (qn \"class\") :bodies [{:title \"aq\" :ops [(=> \"b\" 7)]}]}))", []int{0, 5, 6, 7, 8, 12, 13, 14, 15, 16, 18, 19, 20, 21, 22}},
	{"p", "Aqa <| |>", "(block (collect {:type (qr \"Aqa\") :query (virtual-query)}))", []int{0, 3, 4, 6, 7, 9}},
	{"p", "Aqa <| bj == 7 |>", "(block (collect {:type (qr \"Aqa\") :query (virtual-query (== (qn \"bj\") 7))}))", []int{0, 3, 4, 6, 7, 9, 10, 12, 13, 14, 15, 17}},
	{"p", "Aqa <| bj == 7 and (cq != 8 or d == e) |> { f => 7 }", "(block (collect {:type (qr \"Aqa\") :query (virtual-query (and (== (qn \"bj\") 7) (paren (or (!= (qn \"cq\") 8) (== (qn \"d\") (qn \"e\")))))) :ops [(=> \"f\" 7)]}))", []int{0, 3, 4, 6, 7, 9, 10, 12, 13, 14, 15, 18, 19, 20, 22, 23, 25, 26, 27, 28, 30, 31, 32, 33, 35, 36, 37, 38, 39, 41, 42, 43, 44, 45, 46, 48, 49, 50, 51, 52}},
	{"p", "Aqa <<| |>>", "(block (collect {:type (qr \"Aqa\") :query (exported-query)}))", []int{0, 3, 4, 7, 8, 11}},
	{"p", "Aqa <<| tag == aq |>>", "(block (collect {:type (qr \"Aqa\") :query (exported-query (== (qn \"tag\") (qn \"aq\")))}))", []int{0, 3, 4, 7, 8, 11, 12, 14, 15, 17, 18, 21}},
	{"p", "Aqa['bj'] -> Bja['cq'] ~> C['d']", "(block (~> (-> (access (qr \"Aqa\") \"bj\") (access (qr \"Bja\") \"cq\")) (access (qr \"C\") \"d\")))", []int{0, 4, 8, 9, 10, 12, 13, 17, 21, 22, 23, 25, 26, 28, 31, 32}},
	{"p", "Aqa['bj'] <- Bja['cq'] <~ C['d']", "(block (<~ (<- (access (qr \"Aqa\") \"bj\") (access (qr \"Bja\") \"cq\")) (access (qr \"C\") \"d\")))", []int{0, 4, 8, 9, 10, 13, 17, 21, 22, 23, 25, 26, 28, 31, 32}},
	{"p", "aq { 'bj': } -> cq { 'd': }", "(block (-> (resource {:type (qn \"aq\") :bodies [{:title \"bj\" :ops []}]}) (resource {:type (qn \"cq\") :bodies [{:title \"d\" :ops []}]})))", []int{0, 2, 3, 4, 5, 9, 10, 11, 12, 13, 15, 16, 18, 19, 20, 21, 24, 25, 26, 27}},
	{"p", "$a = $bq = 7", "(block (= (var \"a\") (= (var \"bq\") 7)))", []int{0, 2, 3, 4, 5, 8, 9, 10, 11, 12}},
	{"p", "$aq ; 7 ; bj", "(block (var \"aq\") 7 (qn \"bj\"))", []int{0, 3, 4, 5, 6, 7, 8, 9, 10, 12}},
	{"p", "[1, 7].each |$aq| { notice $aq }", "(block (call-method {:functor (. (array 1 7) (qn \"each\")) :args [] :block (lambda {:params {:aq {}} :body [(invoke {:functor (qn \"notice\") :args [(var \"aq\")]})]})}))", []int{0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 17, 18, 19, 20, 26, 27, 30, 31, 32}},
	{"p", "realize(Aqa['bj'])", "(block (invoke {:functor (qn \"realize\") :args [(access (qr \"Aqa\") \"bj\")]}))", []int{0, 8, 12, 16, 17, 18}},
	{"p", "fail 'aq'", "(block (invoke {:functor (qn \"fail\") :args [\"aq\"]}))", []int{0, 4, 5, 9}},
	{"p", "return(7)", "(block (invoke {:functor (qn \"return\") :args [7]}))", []int{0, 7, 8, 9}},
	{"p", "break()", "(block (invoke {:functor (qn \"break\") :args []}))", []int{0, 6, 7}},
	{"p", "attr", "(block (reserved \"attr\"))", []int{0, 4}},
	{"p", "private", "(block (reserved \"private\"))", []int{0, 7}},
	{"p", "$a = Aqa(7)", "(block (= (var \"a\") (call {:functor (qr \"Aqa\") :args [7]})))", []int{0, 2, 3, 4, 5, 9, 10, 11}},
	{"p", "$a = $bq.each |$x, $y = 7| { }", "(block (= (var \"a\") (call-method {:functor (. (var \"bq\") (qn \"each\")) :args [] :block (lambda {:params {:x {} :y {:value 7}} :body []})})))", []int{0, 2, 3, 4, 5, 8, 9, 13, 14, 15, 17, 18, 19, 21, 22, 23, 24, 26, 27, 28, 29, 30}},
	{"p", "{ aq => 7 }", "(block (hash (=> (qn \"aq\") 7)))", []int{0, 1, 2, 4, 5, 7, 8, 9, 10, 11}},
	{"p", "1 + 7 \n [1, 7]", "(block (+ 1 7) (array 1 7))", []int{0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13, 14}},
	{"p", "if true { [1, 7] }", "(block (if {:test true :then [(array 1 7)]}))", []int{0, 2, 3, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}},
	{"p", "$a = \"${$bq}\"", "(block (= (var \"a\") (concat (str (var \"bq\")))))", []int{0, 2, 3, 4, 5, 13}},
	{"p", "$a = \"x${1 + 7}y${'q'}\"", "(block (= (var \"a\") (concat \"x\" (str (+ 1 7)) \"y\" (str \"q\"))))", []int{0, 2, 3, 4, 5, 23}},
	{"p", "notice { aq => 7 }", "(block (invoke {:functor (qn \"notice\") :args [(hash (=> (qn \"aq\") 7))]}))", []int{0, 6, 7, 8, 9, 11, 12, 14, 15, 16, 17, 18}},
	{"p", "$a = fooq() + 7", "(block (= (var \"a\") (+ (call {:functor (qn \"fooq\") :args []}) 7)))", []int{0, 2, 3, 4, 5, 10, 11, 12, 13, 14, 15}},
	{"p", "aq::bj { 'c': require => Aqa['d'], before => [Bja['e']] }", "(block (resource {:type (qn \"aq::bj\") :bodies [{:title \"c\" :ops [(=> \"require\" (access (qr \"Aqa\") \"d\")) (=> \"before\" (array (access (qr \"Bja\") \"e\")))]}]}))", []int{0, 6, 7, 8, 9, 12, 13, 14, 21, 22, 24, 25, 29, 32, 33, 34, 35, 41, 42, 44, 45, 46, 50, 53, 54, 55, 56, 57}},
	{"p", "$a = \"a\\tb\\\\q\"", "(block (= (var \"a\") \"a\\tb\\\\q\"))", []int{0, 2, 3, 4, 5, 14}},
	{"p", "$a = 'a\\\\b\\'q'", "(block (= (var \"a\") \"a\\\\b'q\"))", []int{0, 2, 3, 4, 5, 14}},
	{"p", "$a = /a\\/bq/", "(block (= (var \"a\") (regexp \"a/bq\")))", []int{}},
	{"p", "# comment q\n$a = 7 /* j */ + 1 # end", "(block (= (var \"a\") (+ 7 1)))", []int{0, 11, 12, 14, 15, 16, 17, 18, 19, 26, 27, 28, 29, 30, 31, 36}},
	{"w", "workflow aq { } { }", "(block (step {:name \"aq\" :style \"workflow\"}))", []int{0, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19}},
	{"w", "workflow aq { parameters => (String $bj = 7), returns => (Integer $cq = (d, e)) } { action dj { } { 7 } }", "(block (step {:name \"aq\" :style \"workflow\" :properties (hash (=> (qn \"parameters\") (array (param {:name \"bj\" :type (qr \"String\") :value 7}))) (=> (qn \"returns\") (array (param {:name \"cq\" :type (qr \"Integer\") :value (array \"d\" \"e\")})))) :definition (block (step {:name \"aq::dj\" :style \"action\" :definition (block 7)}))}))", []int{0, 8, 9, 11, 12, 13, 14, 24, 25, 27, 28, 29, 35, 36, 39, 40, 41, 42, 43, 44, 45, 46, 53, 54, 56, 57, 58, 65, 66, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 90, 91, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105}},
	{"w", "workflow aq { } { resource bj { type => Aqa } { cq => 7, d => $eq } }", "(block (step {:name \"aq\" :style \"workflow\" :definition (block (step {:name \"aq::bj\" :style \"resource\" :properties (hash (=> (qn \"type\") (qr \"Aqa\"))) :definition (hash (=> (qn \"cq\") 7) (=> (qn \"d\") (call-method {:functor (. (qr \"Deferred\") (qn \"new\")) :args [\"$eq\"]})))}))}))", []int{0, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 26, 27, 29, 30, 31, 32, 36, 37, 39, 40, 43, 44, 45, 46, 47, 48, 50, 51, 53, 54, 55, 56, 57, 58, 59, 61, 62, 65, 66, 67, 68, 69}},
	{"w", "workflow aq { } { stateHandler bj { } { function read($x) { 7 } } }", "(block (step {:name \"aq\" :style \"workflow\" :definition (block (step {:name \"aq::bj\" :style \"stateHandler\" :definition (block (function {:name \"read\" :params {:x {}} :body [7]}))}))}))", []int{0, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 30, 31, 33, 34, 35, 36, 37, 38, 39, 40, 48, 49, 54, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67}},
	{"w", "workflow aq { } { workflow bj { } { action cq { } { 7 } } }", "(block (step {:name \"aq\" :style \"workflow\" :definition (block (step {:name \"aq::bj\" :style \"workflow\" :definition (block (step {:name \"aq::bj::cq\" :style \"action\" :definition (block 7)}))}))}))", []int{0, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 26, 27, 29, 30, 31, 32, 33, 34, 35, 36, 42, 43, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59}},
	{"w", "workflow aq { } { action bj { } $cq = times($x) |$d| { 7 } }", "(block (step {:name \"aq\" :style \"workflow\" :definition (block (step {:name \"aq::bj\" :style \"action\" :properties (hash (=> (qn \"iteration\") (hash (=> (qn \"name\") (qn \"cq\")) (=> (qn \"function\") (qn \"times\")) (=> (qn \"params\") (array (param {:name \"x\"}))) (=> (qn \"vars\") (array (param {:name \"d\"})))))) :definition (block 7)}))}))", []int{0, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 24, 25, 27, 28, 29, 30, 31, 32, 35, 36, 37, 38, 44, 46, 47, 48, 49, 52, 53, 54, 55, 56, 57, 58, 59, 60}},
	{"w", "workflow aq { } { action bj { } each($cq) |$d| { 7 } }", "(block (step {:name \"aq\" :style \"workflow\" :definition (block (step {:name \"aq::bj\" :style \"action\" :properties (hash (=> (qn \"iteration\") (hash (=> (qn \"name\") (qn \"bj\")) (=> (qn \"function\") (qn \"each\")) (=> (qn \"params\") (array (param {:name \"cq\"}))) (=> (qn \"vars\") (array (param {:name \"d\"})))))) :definition (block 7)}))}))", []int{0, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 24, 25, 27, 28, 29, 30, 31, 32, 37, 40, 41, 42, 43, 46, 47, 48, 49, 50, 51, 52, 53, 54}},
	{"w", "workflow aq { } { resource bj { } range($x, $y) |$d| { cq => $d } }", "(block (step {:name \"aq\" :style \"workflow\" :definition (block (step {:name \"aq::bj\" :style \"resource\" :properties (hash (=> (qn \"iteration\") (hash (=> (qn \"name\") (qn \"bj\")) (=> (qn \"function\") (qn \"range\")) (=> (qn \"params\") (array (param {:name \"x\"}) (param {:name \"y\"}))) (=> (qn \"vars\") (array (param {:name \"d\"})))))) :definition (hash (=> (qn \"cq\") (call-method {:functor (. (qr \"Deferred\") (qn \"new\")) :args [\"$d\"]})))}))}))", []int{0, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 26, 27, 29, 30, 31, 32, 33, 34, 40, 42, 43, 44, 46, 47, 48, 49, 52, 53, 54, 55, 57, 58, 60, 61, 63, 64, 65, 66, 67}},
	{"w", "workflow aq { } { resource bj { } { cq => [$d, fooj(7), {e => $f}] } }", "(block (step {:name \"aq\" :style \"workflow\" :definition (block (step {:name \"aq::bj\" :style \"resource\" :definition (hash (=> (qn \"cq\") (array (call-method {:functor (. (qr \"Deferred\") (qn \"new\")) :args [\"$d\"]}) (call-method {:functor (. (qr \"Deferred\") (qn \"new\")) :args [\"fooj\" (array 7)]}) (hash (=> (qn \"e\") (call-method {:functor (. (qr \"Deferred\") (qn \"new\")) :args [\"$f\"]}))))))}))}))", []int{0, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 26, 27, 29, 30, 31, 32, 33, 34, 35, 36, 38, 39, 41, 42, 43, 45, 46, 47, 52, 53, 54, 55, 56, 57, 58, 59, 61, 62, 64, 65, 66, 67, 68, 69, 70}},
	{"w", "action aq { } { 7 }", "(block (step {:name \"aq\" :style \"action\" :definition (block 7)}))", []int{0, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19}},
	{"w", "resource aq { returns => ($bj) } { cq => 7 }", "(block (step {:name \"aq\" :style \"resource\" :properties (hash (=> (qn \"returns\") (array (param {:name \"bj\"})))) :definition (hash (=> (qn \"cq\") 7))}))", []int{0, 8, 9, 11, 12, 13, 14, 21, 22, 24, 25, 26, 29, 30, 31, 32, 33, 34, 35, 37, 38, 40, 41, 42, 43, 44}},
	{"w", "function aq { 7 }", "(block (function {:name \"aq\" :body [7]}))", []int{0, 8, 9, 11, 12, 13, 14, 15, 16, 17}},
	{"t", "plan aq { run_task('bj', 7) }", "(block (plan {:name \"aq\" :body [(invoke {:functor (qn \"run_task\") :args [\"bj\" 7]})]}))", []int{0, 4, 5, 7, 8, 9, 10, 19, 23, 24, 25, 26, 27, 28, 29}},
	{"t", "plan aq ($bj) { return $bj }", "(block (plan {:name \"aq\" :params {:bj {}} :body [(invoke {:functor (qn \"return\") :args [(var \"bj\")]})]}))", []int{0, 4, 5, 7, 8, 9, 12, 13, 14, 15, 16, 22, 23, 26, 27, 28}},
	{"t", "function aq { 7 }", "(block (function {:name \"aq\" :body [7]}))", []int{0, 8, 9, 11, 12, 13, 14, 15, 16, 17}},
	{"e", "aq <%= $bj %> c", "(lambda {:body [(epp (render-s \"aq \") (render (var \"bj\")) (render-s \" c\"))]})", []int{}},
	{"e", "aq <%- if $bj { -%>\n x <% } %> c", "(lambda {:body [(epp (render-s \"aq\") (if {:test (var \"bj\") :then [(render-s \" x \")]}) (render-s \" c\"))]})", []int{}},
	{"e", "<%| $aq, Integer $bj = 7 |%>x <%= $aq + 7 %>", "(lambda {:params {:aq {} :bj {:type (qr \"Integer\") :value 7}} :body [(epp (render-s \"x \") (render (+ (var \"aq\") 7)))]})", []int{}},
	{"e", "<%- | String $aq | -%>\nx <%# comment q %>y", "(lambda {:params {:aq {:type (qr \"String\")}} :body [(epp (render-s \"x y\"))]})", []int{}},
	{"e", "a <%% q %%> <%= 7 %>", "(lambda {:body [(epp (render-s \"a <% q %> \") (render 7))]})", []int{}},
	{"e", "<% $aq.each |$x| { %>q <%= $x %> <% } %>", "(lambda {:body [(epp (call-method {:functor (. (var \"aq\") (qn \"each\")) :args [] :block (lambda {:params {:x {}} :body [(render-s \"q \") (render (var \"x\")) (render-s \" \")]})}))]})", []int{}},
	{"e", "q text", "(lambda {:body [(epp (render-s \"q text\"))]})", []int{}},
	{"e", "<% fooq(7) ; $a = 1 %>", "(lambda {:body [(epp (invoke {:functor (qn \"fooq\") :args [7]}) (= (var \"a\") 1))]})", []int{}},
	{"s", "$aq + 7", "(+ (var \"aq\") 7)", []int{0, 3, 4, 5, 6, 7}},
	{"s", "[1, 7]", "(array 1 7)", []int{0, 1, 2, 3, 4, 5, 6}},
	{"s", "aq", "(qn \"aq\")", []int{0, 2}},
	{"s", "{aq => 7}", "(hash (=> (qn \"aq\") 7))", []int{0, 1, 3, 4, 6, 7, 8, 9}},
	{"s", "Aqa[7]", "(access (qr \"Aqa\") 7)", []int{0, 4, 5, 6}},
	{"s", "\"x${aq}y\"", "(concat \"x\" (str (var \"aq\")) \"y\")", []int{0, 9}},
	{"s", "", "nil", []int{0}},
	{"b", "$a = `xq y`", "(block (= (var \"a\") \"xq y\"))", []int{}},
	{"b", "$a = \"\\x41q\"", "(block (= (var \"a\") \"Aq\"))", []int{0, 2, 3, 4, 5, 12}},
	{"p", "$aq.fooj(7) |$x| { $x }", "(block (call-method {:functor (. (var \"aq\") (qn \"fooj\")) :args [7] :block (lambda {:params {:x {}} :body [(var \"x\")]})}))", []int{0, 3, 4, 9, 10, 11, 12, 13, 16, 17, 18, 19, 21, 22, 23}},
	{"p", "fooj(7, $bq) |Integer $x, *$y| { $x }", "(block (invoke {:functor (qn \"fooj\") :args [7 (var \"bq\")] :block (lambda {:params {:x {:type (qr \"Integer\")} :y {:splat true}} :body [(var \"x\")]})}))", []int{0, 5, 6, 7, 8, 11, 12, 13, 14, 21, 22, 24, 25, 26, 27, 30, 31, 32, 33, 35, 36, 37}},
	{"p", "@@Aqa { b => 7 }", "(block (resource-defaults {:type (qr \"Aqa\") :ops [(=> \"b\" 7)] :form \"exported\"}))", []int{0, 2, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16}},
	{"p", "@Aqa[bj] { c => 7 }", "(block (resource-override {:resources (access (qr \"Aqa\") (qn \"bj\")) :ops [(=> \"c\" 7)] :form \"virtual\"}))", []int{0, 1, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19}},
	{"p", "@@Aqa['bj'] { c +> 7 }", "(block (resource-override {:resources (access (qr \"Aqa\") \"bj\") :ops [(+> \"c\" 7)] :form \"exported\"}))", []int{0, 2, 6, 10, 11, 12, 13, 14, 15, 16, 18, 19, 20, 21, 22}},
	{"p", "$a = $bq.c(*$dj, {e => 7}) |$f, $g = 7| >> Aqa { $g }", "(block (= (var \"a\") (call-method {:functor (. (var \"bq\") (qn \"c\")) :args [(unfold (var \"dj\")) (hash (=> (qn \"e\") 7))] :block (lambda {:params {:f {} :g {:value 7}} :returns (qr \"Aqa\") :body [(var \"g\")]})})))", []int{0, 2, 3, 4, 5, 8, 9, 11, 12, 15, 16, 17, 18, 19, 20, 22, 23, 24, 25, 26, 27, 28, 30, 31, 32, 34, 35, 36, 37, 39, 40, 42, 43, 46, 47, 48, 49, 51, 52, 53}},
}
