;;; Replay scripts of spec/Script.tla: reads forms (run NUMBER PATH STEP ...) from
;;; the file named on the command line, and prints (NUMBER STEP-NUMBER RESULT) for
;;; each step.  Strings are given & printed as lists of characters' numbers.
(use-modules (scribbu) (oop goops) (ice-9 textual-ports) (rnrs bytevectors))

(define (str cs) (list->string (map integer->char cs)))
(define (codes s) (if (string? s) (map char->integer (string->list s)) s))
(define (flag x) (case x ((t) #t) ((f) #f) (else '())))
(define (tell x) (cond ((eq? x #t) 't) ((eq? x #f) 'f) (else 'n)))
(define (bytes x) (u8-list->bytevector x))

;; objects
(define (fill! o v)
  (for-each
   (lambda (kv)
     (slot-set! o (car kv)
                (let ((x (cdr kv)))
                  (case (car x)
                    ((s) (str (cadr x)))
                    ((i) (cadr x))
                    ((b) (bytes (cadr x)))
                    ((m) (map (lambda (y) (cons (str (car y)) (map str (cdr y)))) (cadr x)))
                    ((m1) (map (lambda (y) (cons (str (car y)) (str (cadr y)))) (cadr x)))))))
   v)
  o)
(define (flags! o fl)
  (slot-set! o 'tap (flag (car fl)))
  (slot-set! o 'fap (flag (cadr fl)))
  (slot-set! o 'ro (flag (caddr fl)))
  o)
(define (cls k)
  (case k
    ((text) <text-frame>) ((comm) <comment-frame>) ((udt) <user-defined-text-frame>)
    ((pcnt) <play-count-frame>) ((popm) <popm-frame>) ((xtag) <tag-cloud-frame>) ((data) <unk-frame>)))
(define (object k sym fl v)
  (flags! (fill! (make (cls k) #:id sym) v) fl))

;; what there is to see
(define (see-frame f)
  (let ((r (lambda (x) (slot-ref f x))))
    (append
     (list (r 'id) (map tell (list (r 'tap) (r 'fap) (r 'ro))))
     (cond
      ((is-a? f <text-frame>) (list 'text (codes (r 'text))))
      ((is-a? f <comment-frame>) (list 'comm (codes (r 'lang)) (codes (r 'dsc)) (codes (r 'text))))
      ((is-a? f <user-defined-text-frame>) (list 'udt (codes (r 'dsc)) (codes (r 'text))))
      ((is-a? f <play-count-frame>) (list 'pcnt (r 'count)))
      ((is-a? f <popm-frame>) (list 'popm (codes (r 'e-mail)) (r 'rating) (r 'count)))
      ((is-a? f <tag-cloud-frame>)
       (list 'xtag (codes (r 'owner))
             (map (lambda (kv) (cons (codes (car kv)) (map codes (if (string? (cdr kv)) (list (cdr kv)) (cdr kv)))))
                  (r 'tags))))
      ((is-a? f <unk-frame>) (list 'data (codes (r 'id-text)) (bytevector->u8-list (r 'data))))
      (else (list 'what))))))
(define (see-tag x)
  (list (cadr x) (tell (slot-ref (car x) 'experimental)) (map see-frame (slot-ref (car x) 'frames))))
(define v1-text '(title artist album year comment enh-genre start-time end-time))
(define v1-num '(genre track-no speed))
(define (see-v1 x)
  (if (is-a? x <id3v1-tag>)
      (list (map (lambda (s) (codes (slot-ref x s))) v1-text)
            (map (lambda (s) (let ((n (slot-ref x s))) (if (number? n) n -1))) v1-num))
      '()))

;; steps
(define mem '())
(define mem1 '())
(define (tag i) (list-ref mem i))
(define (frames i) (slot-ref (car (tag i)) 'frames))
(define (put l at x) (append (list-head l at) (list x) (list-tail l at)))
(define (cut l at) (append (list-head l at) (list-tail l (1+ at))))
(define (step path s)
  (let ((a (lambda (n) (list-ref s n))))
    (case (car s)
      ((read) (set! mem (read-tagset path)) (map see-tag mem))
      ((read1) (set! mem1 (read-id3v1-tag path)) (see-v1 mem1))
      ((write) (write-tagset (map (lambda (x) (list (car x) (cadr x))) mem) path
                             #:apply-unsync (case (a 1) ((t) #t) ((f) #f) (else 'as-needed))
                             #:copy (flag (a 2))) 'ok)
      ((write1) (write-id3v1-tag mem1 path) 'ok)
      ((set1) (set! mem1 (fill! (make <id3v1-tag>) (a 1))) 'ok)
      ((set) (fill! (list-ref (frames (a 1)) (a 2)) (a 3)) 'ok)
      ((flag) (flags! (list-ref (frames (a 1)) (a 2)) (a 3)) 'ok)
      ((add) (slot-set! (car (tag (a 1))) 'frames (put (frames (a 1)) (a 2) (apply object (a 3)))) 'ok)
      ((del) (slot-set! (car (tag (a 1))) 'frames (cut (frames (a 1)) (a 2))) 'ok)
      ((ver) (set! mem (put (cut mem (a 1)) (a 1) (list (car (tag (a 1))) (a 2) #f))) 'ok)
      ((exp) (slot-set! (car (tag (a 1))) 'experimental (flag (a 2))) 'ok)
      ((tag) (set! mem (put mem (a 1) (list (make <id3v2-tag> #:frames (list (apply object (a 3)))) (a 2) #f))) 'ok)
      ((drop) (set! mem (cut mem (a 1))) 'ok)
      ((keep) (copy-file path (a 1)) 'ok)
      ((walk)
       (let ((seen '()))
         (with-track-in path (lambda (tags pth v1)
                               (set! seen (cons (list (codes pth) (if (pair? tags) (map see-tag tags) '()) (see-v1 v1)) seen))))
         seen))
      (else (error "no such step" s)))))

(define port (open-input-file (cadr (command-line))))
(let next ((form (read port)))
  (if (not (eof-object? form))
      (let ((n (cadr form)) (path (caddr form)))
        (set! mem '())
        (set! mem1 '())
        (let loop ((i 0) (steps (cdddr form)))
          (if (pair? steps)
              (begin
                (write (list n i (catch #t
                                   (lambda () (list 'ok (step path (car steps))))
                                   (lambda (key . args) (list 'error key (codes (object->string args)))))))
                (newline)
                (force-output)
                (loop (1+ i) (cdr steps)))))
        (next (read port)))))
