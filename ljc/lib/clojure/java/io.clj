(ns clojure.java.io)
(defn as-file [x] (cond (nil? x) nil (instance? java.io.File x) x (string? x) (java.io.File. x) :else (throw (IllegalArgumentException. (str "not a file: " x)))))
(defn file ([a] (as-file a)) ([p c] (java.io.File. (as-file p) (str c))) ([p c & more] (reduce file (file p c) more)))
(defn reader [x & _] (reader* x))
(defn output-stream [x & opts] (if (instance? java.io.OutputStream x) x (java.io.FileOutputStream. (str x) (boolean (:append (apply hash-map opts))))))
(defn writer [x & opts]
  (cond (instance? java.io.Writer x) x
        (instance? java.io.OutputStream x) (java.io.BufferedWriter. (java.io.OutputStreamWriter. x "UTF-8"))
        :else (java.io.BufferedWriter. (java.io.OutputStreamWriter. (java.io.FileOutputStream. (str x) (boolean (:append (apply hash-map opts)))) "UTF-8"))))
(defn resource [n] nil)
(defn input-stream [x & _]
  (cond (nil? x) (throw (IllegalArgumentException. "Cannot open <nil> as an InputStream."))
        (instance? java.io.InputStream x) x
        :else (java.io.FileInputStream. (str x))))
(defn copy [in out & _]
  (cond (instance? java.io.Reader in) (if (instance? java.io.Writer out) (do (.transferTo in out) nil) (with-open [w (writer out)] (.transferTo in w) nil))
        (string? in) (if (instance? java.io.Writer out) (.write out in) (with-open [w (writer out)] (.write w in) nil))
        (instance? java.io.InputStream in) (if (instance? java.io.OutputStream out) (do (.transferTo in out) nil)
                                             (if (instance? java.io.Writer out) (copy (reader in) out) (with-open [o (output-stream out)] (.transferTo in o) nil)))
        :else (with-open [i (input-stream in)] (copy i out))))
(defn delete-file [f & [silently]] (or (.delete (as-file f)) silently (throw (java.io.IOException. (str "Couldn't delete " f)))))
(defn make-parents [f & more] (when-let [parent (.getParentFile (apply file f more))] (.mkdirs parent)))
