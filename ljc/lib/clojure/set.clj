(ns clojure.set)
(defn union ([] #{}) ([s] s) ([a b] (if (< (count a) (count b)) (reduce conj b a) (reduce conj a b))) ([a b & more] (reduce union (union a b) more)))
(defn intersection ([s] s) ([a b] (if (< (count b) (count a)) (recur b a) (reduce (fn [r x] (if (contains? b x) r (disj r x))) a a))) ([a b & more] (reduce intersection (intersection a b) more)))
(defn difference ([s] s) ([a b] (reduce (fn [r x] (if (contains? b x) (disj r x) r)) a a)) ([a b & more] (reduce difference a (cons b more))))
(defn select [pred xset] (reduce (fn [s k] (if (pred k) s (disj s k))) xset xset))
(defn subset? [a b] (and (<= (count a) (count b)) (every? (fn [x] (contains? b x)) a)))
(defn superset? [a b] (subset? b a))
(defn map-invert [m] (reduce (fn [r [k v]] (assoc r v k)) {} m))
(defn rename-keys [m kmap] (reduce (fn [r [old new]] (if (contains? m old) (assoc r new (get m old)) r)) (apply dissoc m (keys kmap)) kmap))
(defn index [xrel ks] (reduce (fn [m x] (let [ik (select-keys x ks)] (assoc m ik (conj (get m ik #{}) x)))) {} xrel))
(defn project [xrel ks] (set (map (fn [x] (select-keys x ks)) xrel)))
(defn rename [xrel kmap] (with-meta (set (map (fn [x] (rename-keys x kmap)) xrel)) (meta xrel)))
(defn join
  ([xrel yrel]
   (if (and (seq xrel) (seq yrel))
     (let [ks (intersection (set (keys (first xrel))) (set (keys (first yrel))))
           [r s] (if (<= (count xrel) (count yrel)) [xrel yrel] [yrel xrel])
           idx (index r ks)]
       (reduce (fn [ret x] (if-let [found (idx (select-keys x ks))] (reduce (fn [a b] (conj a (merge b x))) ret found) ret)) #{} s))
     #{}))
  ([xrel yrel km]
   (let [[r s k] (if (<= (count xrel) (count yrel)) [xrel yrel (map-invert km)] [yrel xrel km])
         idx (index r (vals k))]
     (reduce (fn [ret x] (if-let [found (idx (rename-keys (select-keys x (keys k)) k))] (reduce (fn [a b] (conj a (merge b x))) ret found) ret)) #{} s))))
