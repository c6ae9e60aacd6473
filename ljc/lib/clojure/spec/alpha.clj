(ns clojure.spec.alpha)
;; specs are maps {::check (fn [x] problem-or-nil) ::form form}
(def registry* (atom {}))
(def asserts* (atom false))
(defn check-asserts [b] (reset! asserts* (boolean b)))
(defn check-asserts? [] @asserts*)
(declare check*)
(defn spec-map? [s] (and (map? s) (contains? s ::check)))
(defn problem [form x] [{:pred form :val x}])
(defn check* [s form x]
  (cond (keyword? s) (let [r (get @registry* s)] (if r (check* r s x) (throw (Exception. (str "Unable to resolve spec: " s)))))
        (spec-map? s) ((::check s) x)
        (set? s) (when-not (contains? s x) (problem form x))
        :else (when-not (s x) (problem form x))))
(defmacro def [k s] `(do (swap! registry* assoc ~k (let [s# ~s] (if (keyword? s#) s# (if (spec-map? s#) s# {::check (fn [x#] (check* s# '~s x#))})))) ~k))
(defn get-spec [k] (get @registry* k))
(defmacro spec [s & _] s)
(defn or* [pairs] {::check (fn [x] (let [ps (map (fn [[_ s f]] (check* s f x)) pairs)] (when-not (some nil? ps) (vec (apply concat ps)))))})
(defmacro or [& kvs] `(or* ~(vec (map (fn [[k s]] [k s (list 'quote s)]) (partition 2 kvs)))))
(defn and* [pairs] {::check (fn [x] (some (fn [[s f]] (check* s f x)) pairs))})
(defmacro and [& ss] `(and* ~(vec (map (fn [s] [s (list 'quote s)]) ss))))
(defmacro nilable [s] `{::check (fn [x#] (when-not (nil? x#) (check* ~s '~s x#)))})
(defn keys* [{:keys [req opt req-un opt-un]}]
  (let [un (fn [k] (keyword (name k)))]
    {::check (fn [x]
               (if-not (map? x)
                 (problem 'map? x)
                 (let [missing (concat (remove (fn [k] (contains? x k)) req) (remove (fn [k] (contains? x (un k))) req-un))
                       ps (mapcat (fn [k] (problem (list 'contains? k) x)) missing)
                       named (merge (into {} (map (fn [k] [(un k) k]) (concat req-un opt-un)))
                                    {})
                       qs (mapcat (fn [e] (let [k (key e) s (get named k (when (contains? @registry* k) k))] (when s (map (fn [p] (update p :in (fn [in] (into [k] in)))) (check* s s (val e)))))) x)
                       all (vec (concat ps qs))]
                   (seq all))))}))
(defmacro keys [& kvs] `(keys* (hash-map ~@kvs)))
(defn coll-of* [s form opts]
  (let [kind (:kind opts)]
    {::check (fn [x]
               (cond (clojure.core/and kind (not (kind x))) (problem 'kind x)
                     (not (coll? x)) (problem 'coll? x)
                     (clojure.core/and (:count opts) (not= (:count opts) (count x))) (problem 'count x)
                     (clojure.core/and (:min-count opts) (< (count x) (:min-count opts))) (problem 'min-count x)
                     :else (seq (mapcat (fn [e] (check* s form e)) x))))}))
(defmacro coll-of [s & opts] `(coll-of* ~s '~s (hash-map ~@opts)))
(defn map-of* [k v opts]
  {::check (fn [x]
             (cond (not (map? x)) (problem 'map? x)
                   (clojure.core/and (:count opts) (not= (:count opts) (count x))) (problem 'count x)
                   :else (seq (mapcat (fn [e] (concat (check* k k (key e)) (check* v v (val e)))) x))))})
(defmacro map-of [k v & opts] `(map-of* ~k ~v (hash-map ~@opts)))
(defmacro every [s & opts] `(coll-of* ~s '~s (hash-map ~@opts)))
(defn multi-spec* [mm retag]
  {::check (fn [x]
             (let [dv (get x retag)
                   m (get-method mm (if (keyword? retag) (retag x) (retag x)))]
               (if m (let [s (mm x)] (check* s s x)) (problem 'no-method x))))})
(defmacro multi-spec [mm retag] `(multi-spec* ~mm ~retag))
(defn valid? [s x] (nil? (seq (check* s s x))))
(defn explain-data [s x] (when-let [p (seq (check* s s x))] {::problems p ::spec s ::value x}))
(defn explain-str [s x] (if-let [p (seq (check* s s x))] (apply str (map (fn [q] (str (pr-str (:val q)) " - failed: " (pr-str (:pred q)) (when (:in q) (str " in: " (:in q))) "\n")) p)) "Success!\n"))
(defn explain [s x] (print (explain-str s x)))
(defn conform [s x] (ljc-unsupported "spec conform"))
(defn assert* [s x]
  (if (valid? s x) x
    (let [ed (merge (explain-data s x) {::failure :assertion-failed})]
      (throw (ex-info (str "Spec assertion failed\n" (explain-str s x)) ed)))))
(defmacro assert [s x] `(if (check-asserts?) (assert* ~s ~x) ~x))
(defmacro fdef [& _] nil)
