(ns clojure.tools.cli (:require [clojure.string :as str]))
;; the subset of tools.cli the program uses: short flags, long flags, long options with a value, :default-fn
(defn- compile-spec [[short long desc & more]]
  (let [[_ l arg] (re-matches #"--([^ =]+)(?:[ =](.+))?" long)]
    (merge {:id (keyword l) :short short :long (str "--" l) :arg arg :desc desc} (apply hash-map more))))
(defn- summarize [specs]
  (let [rows (map (fn [s] [(if (:short s) (str (:short s) (if (:long s) ", " "")) "    ") (str (:long s) (if (:arg s) (str " " (:arg s)) "")) (or (:desc s) "")]) specs)
        w (fn [i] (apply max 0 (map (fn [r] (count (nth r i))) rows)))
        pad (fn [s n] (apply str s (repeat (- n (count s)) " ")))]
    (str/join "\n" (map (fn [[a b c]] (str/trimr (str "  " (pad a (w 0)) (pad b (w 1)) "  " c))) rows))))
(defn parse-opts [args option-specs & options]
  (let [specs (map compile-spec option-specs)
        by-long (into {} (map (fn [s] [(:long s) s]) specs))
        by-short (into {} (keep (fn [s] (when (:short s) [(:short s) s])) specs))
        defaults (fn [opts] (reduce (fn [m s] (if (and (:default-fn s) (not (contains? m (:id s)))) (assoc m (:id s) ((:default-fn s) m)) m)) opts specs))]
    (loop [args (seq args) opts {} arguments [] errors []]
      (if-not args
        {:options (defaults opts) :arguments arguments :errors (seq errors) :summary (summarize specs)}
        (let [a (first args)]
          (cond (= a "--") (recur nil opts (into arguments (next args)) errors)
                (re-matches #"--\S+=(?s:.*)" a)
                (let [[_ o v] (re-matches #"(?s)(--[^\s=]+)=(.*)" a) s (by-long o)]
                  (cond (nil? s) (recur (next args) opts arguments (conj errors (str "Unknown option: " (pr-str o))))
                        (:arg s) (recur (next args) (assoc opts (:id s) v) arguments errors)
                        :else (recur (next args) (assoc opts (:id s) v) arguments errors)))
                (str/starts-with? a "--")
                (let [s (by-long a)]
                  (cond (nil? s) (recur (next args) opts arguments (conj errors (str "Unknown option: " (pr-str a))))
                        (:arg s) (if (next args)
                                   (recur (nnext args) (assoc opts (:id s) (second args)) arguments errors)
                                   (recur nil opts arguments (conj errors (str "Missing required argument for " (pr-str (str a " " (:arg s)))))))
                        :else (recur (next args) (assoc opts (:id s) true) arguments errors)))
                (and (str/starts-with? a "-") (> (count a) 1))
                (let [rs (map (fn [c] [(str "-" c) (by-short (str "-" c))]) (rest a))]
                  (recur (next args)
                         (reduce (fn [m [_ s]] (if s (assoc m (:id s) true) m)) opts rs)
                         arguments
                         (into errors (keep (fn [[o s]] (when-not s (str "Unknown option: " (pr-str o)))) rs))))
                :else (recur (next args) opts (conj arguments a) errors)))))))
