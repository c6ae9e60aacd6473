(ns clojure.core)

;; --- what syntax-quote stands on

(defn concat
  ([] (lazy-seq* (fn* [] nil)))
  ([x] (lazy-seq* (fn* [] x)))
  ([x y] (lazy-seq* (fn* [] (let [s (seq x)] (if s (cons (first s) (concat (rest s) y)) y)))))
  ([x y & zs] (let [cat (fn cat [xys zs] (lazy-seq* (fn* [] (let [xys (seq xys)] (if xys (cons (first xys) (cat (rest xys) zs)) (if zs (cat (first zs) (next zs)) nil))))))] (cat (concat x y) zs))))

;; --- macros

(defmacro when [test & body] `(if ~test (do ~@body)))
(defmacro when-not [test & body] `(if ~test nil (do ~@body)))
(defmacro if-not ([test then] `(if-not ~test ~then nil)) ([test then else] `(if ~test ~else ~then)))
(defmacro comment [& _] nil)
(defmacro declare [& names] (cons 'do (map* (fn [n] (list 'def n)) names)))
(defn map* [f xs] (loop [r [] s (seq xs)] (if s (recur (conj r (f (first s))) (next s)) (seq r))))

(defn second [x] (first (next x)))
(defn ffirst [x] (first (first x)))
(defn nfirst [x] (next (first x)))
(defn fnext [x] (first (next x)))
(defn nnext [x] (next (next x)))
(defn last [s] (if (vector? s) (peek s) (loop [s (seq s)] (if (next s) (recur (next s)) (first s)))))
(defn butlast [s] (loop [r [] s (seq s)] (if (next s) (recur (conj r (first s)) (next s)) (seq r))))
(defn vary-meta [x f & args] (with-meta x (apply f (meta x) args)))
(defn identity [x] x)
(defn constantly [x] (fn [& _] x))
(defn list* ([a] (seq a)) ([a & more] (let [v (vec (cons a more))] (loop [i (- (count v) 2) r (seq (peek v))] (if (neg? i) r (recur (dec i) (cons (nth v i) r)))))))
(defn nthnext [coll n] (loop [n n xs (seq coll)] (if (if xs (pos? n) false) (recur (dec n) (next xs)) xs)))
(defn nthrest [coll n] (loop [n n xs coll] (if (if (pos? n) (seq xs) nil) (recur (dec n) (rest xs)) xs)))
(defn not-empty [c] (when (seq c) c))
(defn empty? [c] (if (seq c) false true))
(defn any? [_] true)

(defmacro cond [& clauses]
  (when clauses
    (list 'if (first clauses)
          (if (next clauses) (second clauses) (throw (IllegalArgumentException. "cond requires an even number of forms")))
          (cons 'clojure.core/cond (next (next clauses))))))
(defmacro lazy-seq [& body] `(clojure.core/lazy-seq* (fn* [] ~@body)))
(defmacro delay [& body] `(clojure.core/delay* (fn* [] ~@body)))
(defmacro future [& body] `(clojure.core/future-call (fn* [] ~@body)))

(defmacro and ([] true) ([x] x) ([x & next] `(let [and# ~x] (if and# (and ~@next) and#))))
(defmacro or ([] nil) ([x] x) ([x & next] `(let [or# ~x] (if or# or# (or ~@next)))))
(defmacro if-let ([b then] `(if-let ~b ~then nil))
  ([b then else] (let [form (b 0) tst (b 1)] `(let [temp# ~tst] (if temp# (let [~form temp#] ~then) ~else)))))
(defmacro when-let [b & body] (let [form (b 0) tst (b 1)] `(let [temp# ~tst] (when temp# (let [~form temp#] ~@body)))))
(defmacro if-some ([b then] `(if-some ~b ~then nil))
  ([b then else] (let [form (b 0) tst (b 1)] `(let [temp# ~tst] (if (nil? temp#) ~else (let [~form temp#] ~then))))))
(defmacro when-some [b & body] (let [form (b 0) tst (b 1)] `(let [temp# ~tst] (if (nil? temp#) nil (let [~form temp#] ~@body)))))
(defmacro when-first [[x xs] & body] `(when-let [xs# (seq ~xs)] (let [~x (first xs#)] ~@body)))
(defmacro -> [x & forms]
  (loop [x x forms forms]
    (if forms
      (let [form (first forms)
            threaded (if (seq? form) (with-meta (list* (first form) x (next form)) (meta form)) (list form x))]
        (recur threaded (next forms)))
      x)))
(defmacro ->> [x & forms]
  (loop [x x forms forms]
    (if forms
      (let [form (first forms)
            threaded (if (seq? form) (apply list (concat form (list x))) (list form x))]
        (recur threaded (next forms)))
      x)))
(defmacro .. ([x form] `(. ~x ~form)) ([x form & more] `(.. (. ~x ~form) ~@more)))
(defmacro as-> [expr name & forms]
  `(let [~name ~expr ~@(mapcat* (fn [f] [name f]) (butlast forms))] ~(if (empty? forms) name (last forms))))
(defn mapcat* [f xs] (apply concat (map* f xs)))
(defmacro some-> [expr & forms]
  (let [g (gensym) steps (map* (fn [step] `(if (nil? ~g) nil (-> ~g ~step))) forms)]
    `(let [~g ~expr ~@(mapcat* (fn [s] [g s]) (butlast steps))] ~(if (empty? steps) g (last steps)))))
(defmacro some->> [expr & forms]
  (let [g (gensym) steps (map* (fn [step] `(if (nil? ~g) nil (->> ~g ~step))) forms)]
    `(let [~g ~expr ~@(mapcat* (fn [s] [g s]) (butlast steps))] ~(if (empty? steps) g (last steps)))))
(defn pairs* [xs] (loop [r [] s (seq xs)] (if s (recur (conj r [(first s) (second s)]) (next (next s))) (seq r))))
(defmacro cond-> [expr & clauses]
  (let [g (gensym) steps (map* (fn [[test step]] `(if ~test (-> ~g ~step) ~g)) (pairs* clauses))]
    `(let [~g ~expr ~@(mapcat* (fn [s] [g s]) (butlast steps))] ~(if (empty? steps) g (last steps)))))
(defmacro cond->> [expr & clauses]
  (let [g (gensym) steps (map* (fn [[test step]] `(if ~test (->> ~g ~step) ~g)) (pairs* clauses))]
    `(let [~g ~expr ~@(mapcat* (fn [s] [g s]) (butlast steps))] ~(if (empty? steps) g (last steps)))))
(defmacro doto [x & forms]
  (let [gx (gensym)] `(let [~gx ~x] ~@(map* (fn [f] (if (seq? f) `(~(first f) ~gx ~@(next f)) `(~f ~gx))) forms) ~gx)))
(defmacro condp [pred expr & clauses]
  (let [gpred (gensym "pred__") gexpr (gensym "expr__")
        emit (fn emit [args]
               (let [n (count args)]
                 (cond (= n 0) `(throw (IllegalArgumentException. (str "No matching clause: " ~gexpr)))
                       (= n 1) (first args)
                       (= :>> (second args)) `(if-let [p# (~gpred ~(first args) ~gexpr)] (~(nth args 2) p#) ~(emit (drop* 3 args)))
                       :else `(if (~gpred ~(first args) ~gexpr) ~(second args) ~(emit (drop* 2 args))))))]
    `(let [~gpred ~pred ~gexpr ~expr] ~(emit clauses))))
(defn drop* [n xs] (nthnext xs n))
(defmacro while [test & body] `(loop [] (when ~test ~@body (recur))))
(defmacro dotimes [[i n] & body] `(let [n# (long ~n)] (loop [~i 0] (when (< ~i n#) ~@body (recur (inc ~i))))))
(defmacro doseq [bindings & body]
  (let [emit (fn emit [bs]
               (if (empty? bs)
                 `(do ~@body nil)
                 (let [k (first bs) v (second bs) more (nnext bs)]
                   (cond (= k :let) `(let ~v ~(emit more))
                         (= k :when) `(when ~v ~(emit more))
                         (= k :while) `(if ~v ~(emit more) :clojure.core/stop)
                         :else `(loop [s# (seq ~v)]
                                  (when s#
                                    (let [~k (first s#)]
                                      (when-not (= :clojure.core/stop ~(emit more))
                                        (recur (next s#))))))))))]
    ;; recur must be in tail position: the body's value is bound first
    (let [emit (fn emit [bs]
                 (if (empty? bs)
                   `(do ~@body nil)
                   (let [k (first bs) v (second bs) more (nnext bs)]
                     (cond (= k :let) `(let ~v ~(emit more))
                           (= k :when) `(when ~v ~(emit more))
                           (= k :while) `(if ~v ~(emit more) :clojure.core/stop)
                           :else `(do (reduce (fn* [_# x#] (let [~k x# r# ~(emit more)] (if (= r# :clojure.core/stop) (reduced nil) nil))) nil ~v) nil)))))]
      `(do ~(emit (seq bindings)) nil))))
(defmacro for [seq-exprs body]
  (let [emit (fn emit [bs]
               (if (empty? bs)
                 `(list ~body)
                 (let [k (first bs) v (second bs) more (nnext bs)]
                   (cond (= k :let) `(let ~v ~(emit more))
                         (= k :when) `(when ~v ~(emit more))
                         (= k :while) `(if ~v ~(emit more) :clojure.core/stop)
                         :else `((fn iter# [s#]
                                   (lazy-seq
                                     (let [s# (seq s#)]
                                       (when s#
                                         (let [~k (first s#) r# ~(emit more)]
                                           (if (= r# :clojure.core/stop) nil (concat r# (iter# (rest s#)))))))))
                                 ~v)))))]
    (emit (seq seq-exprs))))
(defmacro binding [bindings & body]
  `(with-bindings* (hash-map ~@(mapcat* (fn [[k v]] [(list 'var k) v]) (pairs* bindings))) (fn* [] ~@body)))
(defmacro with-redefs [bindings & body]
  `(with-redefs-fn (hash-map ~@(mapcat* (fn [[k v]] [(list 'var k) v]) (pairs* bindings))) (fn* [] ~@body)))
(defmacro bound-fn [& tail] `(bound-fn* (fn ~@tail)))
(defmacro with-open [bindings & body]
  (if (= (count bindings) 0)
    `(do ~@body)
    `(let [~(bindings 0) ~(bindings 1)]
       (try (with-open ~(subvec bindings 2) ~@body)
            (finally (. ~(bindings 0) close))))))
(defmacro with-out-str [& body]
  `(let [s# (string-writer*)] (binding [*out* s#] ~@body (str s#))))
(defmacro with-in-str [s & body]
  `(with-open [s# (java.io.BufferedReader. (java.io.StringReader. ~s))] (binding [*in* s#] ~@body)))
(defmacro with-local-vars [& _] (ljc-unsupported "with-local-vars"))
(defmacro time [expr] `(let [ret# ~expr] ret#))
(defmacro assert
  ([x] `(when-not ~x (throw (AssertionError. (str "Assert failed: " (pr-str '~x))))))
  ([x message] `(when-not ~x (throw (AssertionError. (str "Assert failed: " ~message "\n" (pr-str '~x)))))))
(defmacro locking [x & body] `(do ~x ~@body))
(defmacro io! [& body] `(do ~@body))
(defmacro defonce [name expr] `(when-not (let [v# (def ~name)] (bound? v#)) (def ~name ~expr)))
(defmacro letfn [fnspecs & body]
  (let [names (map* first fnspecs) cells (map* (fn [_] (gensym "letfn__")) names)]
    `(let [~@(mapcat* (fn [c] [c `(volatile! nil)]) cells)
           ~@(mapcat* (fn [[n c]] [n `(fn* [& args#] (apply (deref ~c) args#))]) (map* vector* (zip* names cells)))]
       ~@(map* (fn [[spec c]] `(vreset! ~c (fn ~@spec))) (zip* fnspecs cells))
       ~@body)))
(defn vector* [x] x)
(defn zip* [a b] (loop [r [] a (seq a) b (seq b)] (if (if a b nil) (recur (conj r [(first a) (first b)]) (next a) (next b)) r)))
(defmacro vswap! [vol f & args] `(vswap!* ~vol ~f ~@args))
(defmacro defmulti [name & options]
  (let [options (if (string? (first options)) (next options) options)
        options (if (map? (first options)) (next options) options)
        dispatch (first options) opts (apply hash-map (next options))]
    (when (or (nil? (resolve name)) (not (multi? (try (deref (resolve name)) (catch Exception _ nil)))) true)
      `(def ~name (multi* ~(str name) ~dispatch ~(get opts :default :default))))))
(defmacro defmethod [multifn dispatch-val & fn-tail]
  `(add-method* ~multifn ~dispatch-val (fn ~@fn-tail)))
(defmacro memfn [name & args] `(fn [target# ~@args] (. target# (~name ~@args))))
(defmacro import [& specs] `(clojure.core/import* '~specs))
(defmacro case-let [& _] nil)
(defmacro defrecord [& _] (ljc-unsupported "defrecord"))
(defmacro deftype [& _] (ljc-unsupported "deftype"))
(defmacro proxy [& _] (ljc-unsupported "proxy"))
;; groups like (P (m [..] ..) (n [..] ..) Q (o [..] ..)) as [[P [(m ..) (n ..)]] ..]
(defn impls* [specs] (reduce (fn [r x] (if (seq? x) (conj (pop r) [(nth (peek r) 0) (conj (nth (peek r) 1) x)]) (conj r [x []]))) [] specs))
;; methods of one name and several arities as one function
(defn methods* [ms hint]
  (let [names (distinct (map* first ms))]
    (mapcat* (fn [n] [(keyword (name n)) (cons 'clojure.core/fn (mapcat* (fn [m] (if (vector? (second m)) [(next m)] (next m))) (filter (fn [m] (= n (first m))) ms)))]) names)))
(defmacro defprotocol [nm & specs]
  (let [specs (filter seq? specs)]
    `(do (def ~nm (protocol* '~(symbol (str (ns-name *ns*)) (str nm))))
         ~@(map* (fn [s] `(def ~(first s) (protocol-fn* ~nm ~(str (first s))))) specs)
         '~nm)))
(defmacro extend-type [t & specs]
  `(do ~@(map* (fn [[p ms]] `(extend* ~t ~p (hash-map ~@(methods* ms t)))) (impls* specs)) nil))
(defmacro extend-protocol [p & specs]
  `(do ~@(map* (fn [[t ms]] `(extend* ~t ~p (hash-map ~@(methods* ms t)))) (impls* specs)) nil))
(defmacro reify [& specs]
  (let [gs (impls* specs)]
    `(reify* [~@(map* first gs)] (hash-map ~@(methods* (mapcat* second gs) nil)))))
(defmacro with-bindings [m & body] `(with-bindings* ~m (fn* [] ~@body)))
(defmacro with-precision [precision & exprs]
  (let [[body rm] (if (= (first exprs) :rounding) [(nnext exprs) (list 'java.math.RoundingMode/valueOf (str (second exprs)))] [exprs 'java.math.RoundingMode/HALF_UP])]
    `(binding [*math-context* (java.math.MathContext. ~precision ~rm)] ~@body)))

(defn import* [specs] (ljc-unsupported "import outside ns"))

;; --- functions

(defn comp
  ([] identity)
  ([f] f)
  ([f g] (fn ([] (f (g))) ([x] (f (g x))) ([x y] (f (g x y))) ([x y z] (f (g x y z))) ([x y z & args] (f (apply g x y z args)))))
  ([f g & fs] (reduce comp (comp f g) fs)))
(defn partial
  ([f] f)
  ([f & xs] (fn [& args] (apply f (concat xs args)))))
(defn complement [f] (fn [& args] (not (apply f args))))
(defn juxt [& fs] (fn [& args] (mapv* (fn [f] (apply f args)) fs)))
(defn mapv* [f xs] (reduce (fn [r x] (conj r (f x))) [] xs))
(defn fnil
  ([f x] (fn [a & args] (apply f (if (nil? a) x a) args)))
  ([f x y] (fn [a b & args] (apply f (if (nil? a) x a) (if (nil? b) y b) args)))
  ([f x y z] (fn [a b c & args] (apply f (if (nil? a) x a) (if (nil? b) y b) (if (nil? c) z c) args))))
(defn memoize [f] (let [mem (atom {})] (fn [& args] (if-let [e (find @mem args)] (val e) (let [ret (apply f args)] (swap! mem assoc args ret) ret)))))
(defn trampoline ([f] (let [ret (f)] (if (fn? ret) (recur ret) ret))) ([f & args] (trampoline (fn [] (apply f args)))))
(defn every-pred [& ps]
  (fn [& xs] (boolean (every? (fn [x] (every? (fn [p] (p x)) ps)) xs))))
(defn some-fn [& ps]
  (fn [& xs] (some (fn [x] (some (fn [p] (p x)) ps)) xs)))

(defn map
  ([f] (fn [rf] (fn ([] (rf)) ([result] (rf result)) ([result input] (rf result (f input))) ([result input & inputs] (rf result (apply f input inputs))))))
  ([f coll] (lazy-seq (let [s (seq coll)] (if s (cons (f (first s)) (map f (rest s))) nil))))
  ([f c1 c2] (lazy-seq (let [s1 (seq c1) s2 (seq c2)] (if (if s1 s2 nil) (cons (f (first s1) (first s2)) (map f (rest s1) (rest s2))) nil))))
  ([f c1 c2 & cs] (let [step (fn step [cs] (lazy-seq (let [ss (map seq cs)] (when (every? identity ss) (cons (map first ss) (step (map rest ss)))))))] (map (fn [args] (apply f args)) (step (list* c1 c2 cs))))))
(defn every? [pred coll] (loop [s (seq coll)] (if (nil? s) true (if (pred (first s)) (recur (next s)) false))))
(defn not-every? [pred coll] (not (every? pred coll)))
(defn some [pred coll] (loop [s (seq coll)] (if s (let [r (pred (first s))] (if r r (recur (next s)))) nil)))
(defn not-any? [pred coll] (not (some pred coll)))
(defn filter
  ([pred] (fn [rf] (fn ([] (rf)) ([result] (rf result)) ([result input] (if (pred input) (rf result input) result)))))
  ([pred coll] (lazy-seq (loop [s (seq coll)] (if s (let [x (first s)] (if (pred x) (cons x (filter pred (rest s))) (recur (next s)))) nil)))))
(defn remove ([pred] (filter (complement pred))) ([pred coll] (filter (complement pred) coll)))
(defn keep
  ([f] (fn [rf] (fn ([] (rf)) ([result] (rf result)) ([result input] (let [v (f input)] (if (nil? v) result (rf result v)))))))
  ([f coll] (lazy-seq (loop [s (seq coll)] (if s (let [v (f (first s))] (if (nil? v) (recur (next s)) (cons v (keep f (rest s))))) nil)))))
(defn keep-indexed
  ([f] (fn [rf] (let [i (volatile! -1)] (fn ([] (rf)) ([result] (rf result)) ([result input] (let [v (f (vswap! i inc) input)] (if (nil? v) result (rf result v))))))))
  ([f coll] (let [step (fn step [i c] (lazy-seq (when-let [s (seq c)] (let [v (f i (first s))] (if (nil? v) (step (inc i) (rest s)) (cons v (step (inc i) (rest s))))))))] (step 0 coll))))
(defn map-indexed
  ([f] (fn [rf] (let [i (volatile! -1)] (fn ([] (rf)) ([result] (rf result)) ([result input] (rf result (f (vswap! i inc) input)))))))
  ([f coll] (let [step (fn step [i c] (lazy-seq (when-let [s (seq c)] (cons (f i (first s)) (step (inc i) (rest s))))))] (step 0 coll))))
(defn preserving-reduced* [rf] (fn [a b] (let [ret (rf a b)] (if (reduced? ret) (reduced ret) ret))))
(defn cat [rf] (let [rrf (preserving-reduced* rf)] (fn ([] (rf)) ([result] (rf result)) ([result input] (reduce rrf result input)))))
(defn mapcat
  ([f] (comp (map f) cat))
  ([f & colls] (lazy-cat* (apply map f colls))))
(defn lazy-cat* [colls] (lazy-seq (when-let [s (seq colls)] (concat (first s) (lazy-cat* (rest s))))))
(defmacro lazy-cat [& colls] `(concat ~@(map* (fn [c] `(lazy-seq ~c)) colls)))
(defn take
  ([n] (fn [rf] (let [nv (volatile! n)] (fn ([] (rf)) ([result] (rf result)) ([result input] (let [n @nv nn (vswap! nv dec) result (if (pos? n) (rf result input) result)] (if (not (pos? nn)) (ensure-reduced result) result)))))))
  ([n coll] (lazy-seq (when (pos? n) (when-let [s (seq coll)] (cons (first s) (take (dec n) (rest s))))))))
(defn drop
  ([n] (fn [rf] (let [nv (volatile! n)] (fn ([] (rf)) ([result] (rf result)) ([result input] (let [n @nv] (vswap! nv dec) (if (pos? n) result (rf result input))))))))
  ([n coll] (lazy-seq (loop [n n s (seq coll)] (if (and (pos? n) s) (recur (dec n) (next s)) s)))))
(defn take-while
  ([pred] (fn [rf] (fn ([] (rf)) ([result] (rf result)) ([result input] (if (pred input) (rf result input) (reduced result))))))
  ([pred coll] (lazy-seq (when-let [s (seq coll)] (when (pred (first s)) (cons (first s) (take-while pred (rest s))))))))
(defn drop-while
  ([pred] (fn [rf] (let [dv (volatile! true)] (fn ([] (rf)) ([result] (rf result)) ([result input] (if (and @dv (pred input)) result (do (vreset! dv nil) (rf result input))))))))
  ([pred coll] (lazy-seq (loop [s (seq coll)] (if (and s (pred (first s))) (recur (next s)) s)))))
(defn take-nth
  ([n] (fn [rf] (let [iv (volatile! -1)] (fn ([] (rf)) ([result] (rf result)) ([result input] (let [i (vswap! iv inc)] (if (zero? (rem i n)) (rf result input) result)))))))
  ([n coll] (lazy-seq (when-let [s (seq coll)] (cons (first s) (take-nth n (drop n s)))))))
(defn take-last [n coll] (loop [s (seq coll) lead (seq (drop n coll))] (if lead (recur (next s) (next lead)) s)))
(defn drop-last ([s] (drop-last 1 s)) ([n s] (map (fn [x _] x) s (drop n s))))
(defn split-at [n coll] [(take n coll) (drop n coll)])
(defn split-with [pred coll] [(take-while pred coll) (drop-while pred coll)])
(defn distinct
  ([] (fn [rf] (let [seen (volatile! #{})] (fn ([] (rf)) ([result] (rf result)) ([result input] (if (contains? @seen input) result (do (vswap! seen conj input) (rf result input))))))))
  ([coll] (let [step (fn step [xs seen] (lazy-seq (loop [s (seq xs)] (when s (let [x (first s)] (if (contains? seen x) (recur (next s)) (cons x (step (rest s) (conj seen x)))))))))] (step coll #{}))))
(defn dedupe
  ([] (fn [rf] (let [pv (volatile! ::none)] (fn ([] (rf)) ([result] (rf result)) ([result input] (let [prior @pv] (vreset! pv input) (if (= prior input) result (rf result input))))))))
  ([coll] (sequence (dedupe) coll)))
(defn distinct? ([x] true) ([x & more] (= (count (set (cons x more))) (inc (count more)))))
(defn interpose
  ([sep] (fn [rf] (let [started (volatile! false)] (fn ([] (rf)) ([result] (rf result)) ([result input] (if @started (let [sepr (rf result sep)] (if (reduced? sepr) sepr (rf sepr input))) (do (vreset! started true) (rf result input))))))))
  ([sep coll] (drop 1 (interleave (repeat sep) coll))))
(defn interleave
  ([] ()) ([c1] (lazy-seq c1))
  ([c1 c2] (lazy-seq (let [s1 (seq c1) s2 (seq c2)] (when (and s1 s2) (cons (first s1) (cons (first s2) (interleave (rest s1) (rest s2))))))))
  ([c1 c2 & cs] (lazy-seq (let [ss (map seq (list* c1 c2 cs))] (when (every? identity ss) (concat (map first ss) (apply interleave (map rest ss))))))))
(defn repeat ([x] (lazy-seq (cons x (repeat x)))) ([n x] (take n (repeat x))))
(defn repeatedly ([f] (lazy-seq (cons (f) (repeatedly f)))) ([n f] (take n (repeatedly f))))
(defn replicate [n x] (take n (repeat x)))
(defn iterate [f x] (lazy-seq (cons x (iterate f (f x)))))
(defn cycle [coll] (lazy-seq (when-let [s (seq coll)] (concat s (cycle s)))))
(defn range
  ([] (iterate inc' 0)) ([end] (range 0 end 1)) ([start end] (range start end 1))
  ([start end step] (lazy-seq (if (if (pos? step) (< start end) (> start end)) (cons start (range (+ start step) end step)) nil))))
(defn partition-all
  ([n] (fn [rf] (let [a (volatile! [])] (fn ([] (rf)) ([result] (let [result (if (empty? @a) result (let [v @a] (vreset! a []) (unreduced (rf result v))))] (rf result))) ([result input] (vswap! a conj input) (if (= n (count @a)) (let [v @a] (vreset! a []) (rf result v)) result))))))
  ([n coll] (partition-all n n coll))
  ([n step coll] (lazy-seq (when-let [s (seq coll)] (cons (take n s) (partition-all n step (nthrest s step)))))))
(defn partition
  ([n coll] (partition n n coll))
  ([n step coll] (lazy-seq (when-let [s (seq coll)] (let [p (take n s)] (when (= n (count p)) (cons p (partition n step (nthrest s step))))))))
  ([n step pad coll] (lazy-seq (when-let [s (seq coll)] (let [p (take n s)] (if (= n (count p)) (cons p (partition n step pad (nthrest s step))) (list (take n (concat p pad)))))))))
(defn partition-by
  ([f] (fn [rf] (let [a (volatile! []) pv (volatile! ::none)]
                  (fn ([] (rf)) ([result] (let [result (if (empty? @a) result (let [v @a] (vreset! a []) (unreduced (rf result v))))] (rf result)))
                    ([result input] (let [pval @pv v (f input)] (vreset! pv v)
                      (if (or (= pval ::none) (= v pval)) (do (vswap! a conj input) result)
                        (let [x @a] (vreset! a []) (let [ret (rf result x)] (when-not (reduced? ret) (vswap! a conj input)) ret)))))))))
  ([f coll] (lazy-seq (when-let [s (seq coll)] (let [fst (first s) fv (f fst) run (cons fst (take-while (fn [x] (= fv (f x))) (next s)))] (cons run (partition-by f (drop (count run) s))))))))
(defn group-by [f coll] (reduce (fn [ret x] (let [k (f x)] (assoc ret k (conj (get ret k []) x)))) {} coll))
(defn frequencies [coll] (reduce (fn [m x] (assoc m x (inc (get m x 0)))) {} coll))
(defn reductions
  ([f coll] (lazy-seq (if-let [s (seq coll)] (reductions f (first s) (rest s)) (list (f)))))
  ([f init coll] (if (reduced? init) (list @init) (cons init (lazy-seq (when-let [s (seq coll)] (reductions f (f init (first s)) (rest s))))))))
(defn tree-seq [branch? children root] (let [walk (fn walk [node] (lazy-seq (cons node (when (branch? node) (mapcat walk (children node))))))] (walk root)))
(defn flatten [x] (filter (complement sequential?) (rest (tree-seq sequential? seq x))))
(defn file-seq [dir] (tree-seq (fn [f] (.isDirectory f)) (fn [d] (seq (.listFiles d))) dir))
(defn mapv ([f coll] (reduce (fn [r x] (conj r (f x))) [] coll)) ([f c1 c2] (into [] (map f c1 c2))) ([f c1 c2 & cs] (into [] (apply map f c1 c2 cs))))
(defn filterv [pred coll] (reduce (fn [r x] (if (pred x) (conj r x) r)) [] coll))
(defn pmap [f & colls] (apply map f colls))
(defn run! [proc coll] (reduce (fn [_ x] (proc x)) nil coll) nil)
(defn dorun ([coll] (loop [s (seq coll)] (when s (recur (next s))))) ([n coll] (loop [n n s (seq coll)] (when (and s (pos? n)) (recur (dec n) (next s))))))
(defn doall ([coll] (dorun coll) coll) ([n coll] (dorun n coll) coll))
(defn eduction [& xforms] (->Eduction (apply comp (butlast xforms)) (last xforms)))
(defn sequence
  ([coll] (if (seq? coll) coll (or (seq coll) ())))
  ([xform coll] (or (seq (into [] xform coll)) ()))
  ([xform coll & colls] (or (seq (into [] (comp (map (fn [args] args)) (fn [rf] (let [g (xform rf)] (fn ([] (g)) ([r] (g r)) ([r args] (apply g r args)))))) (apply map list coll colls))) ())))
(defn completing ([f] (completing f identity)) ([f cf] (fn ([] (f)) ([x] (cf x)) ([x y] (f x y)))))
(defn halt-when
  ([pred] (halt-when pred nil))
  ([pred retf]
   (fn [rf]
     (fn ([] (rf))
         ([result] (if (and (map? result) (contains? result ::halt)) (::halt result) (rf result)))
         ([result input] (if (pred input) (reduced {::halt (if retf (retf (rf result) input) input)}) (rf result input)))))))
(defn replace ([smap] (map (fn [x] (if-let [e (find smap x)] (val e) x)))) ([smap coll] (if (vector? coll) (mapv (fn [x] (if-let [e (find smap x)] (val e) x)) coll) (map (fn [x] (if-let [e (find smap x)] (val e) x)) coll))))
(defn rand-nth [coll] (nth coll (rand-int (count coll))))
(defn max-key
  ([k x] x) ([k x y] (if (> (k x) (k y)) x y))
  ([k x y & more] (let [kx (k x) ky (k y) [v kv] (if (> kx ky) [x kx] [y ky])] (loop [v v kv kv more more] (if more (let [w (first more) kw (k w)] (if (>= kw kv) (recur w kw (next more)) (recur v kv (next more)))) v)))))
(defn min-key
  ([k x] x) ([k x y] (if (< (k x) (k y)) x y))
  ([k x y & more] (let [kx (k x) ky (k y) [v kv] (if (< kx ky) [x kx] [y ky])] (loop [v v kv kv more more] (if more (let [w (first more) kw (k w)] (if (<= kw kv) (recur w kw (next more)) (recur v kv (next more)))) v)))))

(defn get-in
  ([m ks] (reduce get m ks))
  ([m ks not-found] (loop [sentinel (volatile! nil) m m ks (seq ks)] (if ks (let [m (get m (first ks) sentinel)] (if (identical? sentinel m) not-found (recur sentinel m (next ks)))) m))))
(defn assoc-in [m [k & ks] v] (if ks (assoc m k (assoc-in (get m k) ks v)) (assoc m k v)))
(defn update [m k f & args] (assoc m k (apply f (get m k) args)))
(defn update-in [m ks f & args] (let [[k & ks] ks] (if ks (assoc m k (apply update-in (get m k) ks f args)) (assoc m k (apply f (get m k) args)))))
(defn update-vals [m f] (with-meta (reduce-kv (fn [acc k v] (assoc acc k (f v))) {} m) (meta m)))
(defn update-keys [m f] (with-meta (reduce-kv (fn [acc k v] (assoc acc (f k) v)) {} m) (meta m)))
(defn select-keys [map keyseq] (with-meta* (reduce (fn [ret k] (if-let [e (find map k)] (conj ret [(key e) (val e)]) ret)) {} keyseq) (meta map)))
(defn with-meta* [x m] (if (nil? m) x (with-meta x m)))
(defn merge [& maps] (when (some identity maps) (reduce (fn [a b] (conj (or a {}) b)) maps)))
(defn merge-with [f & maps]
  (when (some identity maps)
    (reduce (fn [m1 m2] (reduce (fn [m e] (let [k (key e) v (val e)] (if (contains? m k) (assoc m k (f (get m k) v)) (assoc m k v)))) (or m1 {}) (seq m2))) maps)))
(defn zipmap [keys vals] (loop [m {} ks (seq keys) vs (seq vals)] (if (and ks vs) (recur (assoc m (first ks) (first vs)) (next ks) (next vs)) m)))
(defn reduce-map* [f m] m)
(defn subseq [sc test key] (filter (fn [x] (test (compare (if (map? sc) (first x) x) key) 0)) (seq sc)))
(defn rsubseq [sc test key] (reverse (subseq sc test key)))

(defn pr-str [& xs] (with-out-str (apply pr xs)))
(defn prn-str [& xs] (with-out-str (apply prn xs)))
(defn print-str [& xs] (with-out-str (apply print xs)))
(defn println-str [& xs] (with-out-str (apply println xs)))
(defn printf [fmt & args] (print (apply format fmt args)))
(defn print-simple [o w] (print-plain o w))
(defn spit [f content & opts]
  (let [append (:append (apply hash-map opts))]
    (with-open [w (java.io.OutputStreamWriter. (java.io.FileOutputStream. (str f) (boolean append)) "UTF-8")] (.write w (str content)))))
(defn line-seq [rdr] (when-let [line (line-seq* rdr)] (cons line (lazy-seq (line-seq rdr)))))
(defn println* [& xs] nil)
(defn tap> [x] true)
(defn var-name* [v] (symbol v))
(defn ex-str* [e] (str e))
(defn ns-aliases [ns] {})
(defn bean [x] (ljc-unsupported "bean"))
(defn iteration [& _] (ljc-unsupported "iteration"))
(defn agent [& _] (ljc-unsupported "agent"))
(defn ref [x & _] (atom x))
(defmacro dosync [& body] `(do ~@body))
(defmacro sync [_ & body] `(do ~@body))
(defn alter [r f & args] (apply swap! r f args))
(defn commute [r f & args] (apply swap! r f args))
(defn ref-set [r v] (reset! r v))
(defn ensure [r] @r)
(defn promise [] (java.util.concurrent.CompletableFuture.))
(defn deliver [p v] (when (.complete p v) p))
(defn future? [x] (instance? java.util.concurrent.Future x))
(defn future-done? [x] (.isDone x))
(defn future-cancel [x] (.cancel x true))
(defn simple-ident? [x] (and (ident? x) (nil? (namespace x))))
(defn qualified-ident? [x] (boolean (and (ident? x) (namespace x))))
(defn special-symbol? [s] (contains? '#{def if do let* fn* loop* recur quote var throw try catch finally new . set! & case* letfn* import* monitor-enter monitor-exit deftype* reify*} s))
(defn uri? [x] (instance? java.net.URI x))
(defn bytes? [x] (and (some? x) (= "[B" (.getName (class x)))))
(defn random-sample ([p] (filter (fn [_] (< (rand) p)))) ([p coll] (filter (fn [_] (< (rand) p)) coll)))
(defn chunked-seq? [_] false)
(defmacro areduce [a idx ret init expr] `(let [a# ~a l# (alength a#)] (loop [~idx 0 ~ret ~init] (if (< ~idx l#) (recur (inc ~idx) ~expr) ~ret))))
(defmacro amap [a idx ret expr] `(let [a# ~a l# (alength a#) ~ret (aclone a#)] (loop [~idx 0] (if (< ~idx l#) (do (aset ~ret ~idx ~expr) (recur (inc ~idx))) ~ret))))
(defn clojure-version [] "1.12.4")
(defn newline* [] nil)
(defn inst-ms [i] (.getTime i))
(defn read ([] (ljc-unsupported "read")) ([& _] (ljc-unsupported "read")))
(defn test [v] :no-test)
(defn nary* [f] f)
(defn set-validator! [& _] (ljc-unsupported "set-validator!"))
(defn get-validator [_] nil)
(defn remove-watch [r k] r)
(defn add-tap [f] nil)
(defn remove-tap [f] nil)
(defmacro pvalues [& exprs] `(list ~@exprs))
(defn pcalls [& fns] (map (fn [f] (f)) fns))
(defn supers [c] (ancestors c))
(defn seque ([s] s) ([_ s] s))
(defn future-cancelled? [x] (.isCancelled x))
(defn unchecked-byte [x] (byte x))
(defn unchecked-char [x] (char x))
(defn aset-long [a i v] (aset a i v))
(defn aset-int [a i v] (aset a i v))
(defn aset-double [a i v] (aset a i v))
(defn aset-boolean [a i v] (aset a i v))
(defn longs [x] x) (defn ints [x] x) (defn doubles [x] x) (defn bytes [x] x) (defn chars [x] x) (defn booleans [x] x)
(defn chunk-first [s] (first s)) (defn chunk-rest [s] (rest s)) (defn chunk-next [s] (next s))
(defn to-array-2d [coll] (into-array (map to-array coll)))
(def char-escape-string {\newline "\\n" \tab "\\t" \return "\\r" \" "\\\"" \\ "\\\\" \formfeed "\\f" \backspace "\\b"})
(def char-name-string {\newline "newline" \tab "tab" \space "space" \backspace "backspace" \formfeed "formfeed" \return "return"})
(def default-data-readers {})
(def ^:dynamic *agent* nil)
(defn tagged-literal? [x] false)
(defn reader-conditional? [x] false)
(defn xml-seq [root] (tree-seq (complement string?) (comp seq :content) root))
(defn load [& paths] (ljc-unsupported "load"))
(defn splitv-at [n coll] [(vec (take n coll)) (drop n coll)])
(defn partitionv [n coll] (map vec (partition n coll)))
(defn partitionv-all [n coll] (map vec (partition-all n coll)))
