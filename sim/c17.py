"""C17: a document's result does not depend on what was processed before it.

One run is one interpreter history: documents A1..Ak are processed to completion in
one interpreter, then B.  A second, fresh interpreter processes B alone.  The simulator
controls the interpreter boundary (every interpreter is a fork of an unused one), the
clock (frozen, jumping between documents), the working directory, the configuration of
each document and the end of each input (cut after an arbitrary construct, so that
groups, lists, formulas, macro arguments are open at the end of the file).
"""
import datetime as _dt
import json
import os
import pickle
import re
import shutil
import signal
import struct
import sys
import time
import traceback

from sim import pt
from sim.kernel import Violation, shrink_lists, replace_at, REPO

LEVEL = 'exercise'
BATCH = 8
TIMEOUT = 60
RUNS_QUICK = 280
RUNS_THOROUGH = 20000
RULE = ('a run is non-trivial if at least one earlier document was processed to completion in '
        'the same interpreter before B and B produced a tree; distinct by trace digest')
STATE_MEASURE = 'distinct (set of constructs in earlier documents, constructs in B, renderers) digests'
REAL = ['Compile.run: tokenizer, parser, macro packages, context, configuration, renderers '
        '(HTML5, XHTML, Text, ManPage), file output, paux files']
STUB = ['clock (time.time/localtime/strftime, datetime.now): frozen per document and set by the plan',
        'imagers disabled (external programs)',
        'interpreter start: fork of a process that has imported plasTeX and processed nothing']
ASSUMPTIONS = ['documents are built from the catalogue in sim/c17.py',
               'identifiers of the form a + 10 digits are automatically generated and are compared '
               'after renumbering in order of generation',
               'state that is private to caching or logging may differ between documents']
TIME_NOTE = 'sum of the clock jumps between documents of one interpreter'

# ------------------------------------------------------------------ catalogue
# name: (packages, preamble, body)
SN = {
 # registers
 'parindent': ('', '', r'\parindent=17pt \ifdim\parindent=17pt yes\else no\fi'),
 'parskip': ('', '', r'\parskip=3pt plus 1pt minus 2pt text'),
 'assign-pre': ('', '\\parindent=5pt\n\\tolerance=77\n\\textwidth=9cm\n', 'word'),
 'count': ('', '', r'\tolerance=999 \hyphenpenalty 31 \ifnum\tolerance=999 yes\else no\fi'),
 'newdimen': ('', r'\newdimen\mydim \newcount\mycount \newskip\myskip \newmuskip\mymu',
              r'\mydim=3cm \mycount=\tolerance \myskip=1pt plus 1fil \mymu=3mu \ifdim\mydim=3cm A\else B\fi'),
 'copyreg': ('', '', r'\parindent=\leftskip \leftskip=12pt \rightskip=\leftskip x'),
 'mureg': ('', '', r'\thinmuskip=5mu \medmuskip=3mu plus 1mu minus 1mu z'),
 'lenreg': ('', '', r'\textwidth=100pt \columnsep=9pt \parsep=1pt q'),
 'mucopy': ('', '', r'\thinmuskip=\medmuskip \medmuskip=-\thickmuskip \thickmuskip=2mu plus 1fil z'),
 'gluecopy': ('', '', r'\parskip=-\leftskip \leftskip=\parindent plus 2\parindent minus .5\parindent w'),
 'dimfactor': ('', '', r'\parindent=-.5\parskip \textwidth=2\parindent \hangindent=-\parindent v'),
 'numcopy': ('', '', r'\tolerance=-\hbadness \hyphenpenalty=2\tolerance \hangafter=-"1F u'),
 'advances': ('', '', r'\advance\parindent by 2\parskip \advance\leftskip 1pt plus 1fil \multiply\tolerance by 3 \divide\tolerance 2 t'),
 'setlength': ('', '', r'\setlength{\parindent}{2cm}\addtolength{\parskip}{1pt} r'),
 'hskip': ('', '', r'a\hskip\parindent b\vskip 3pt c\kern2pt d\hskip -\parindent e'),
 'advance': ('', '', r'\advance\tolerance by 5 \ifnum\tolerance>200 up\else same\fi'),
 'boxdims': ('', '', r'\makebox[3cm][l]{\width=4pt t}\framebox[\width]{u}\parbox{3cm}{v}'),
 'mathparam': ('', '', r'$\mathsurround=2pt x$ \delimitershortfall=3pt y'),
 'everypar': ('', '', r'\everypar={} \hangindent=2em \hangafter=-3 w'),
 'fill': ('', '', r'a\hspace{\fill}b\hspace*{3pt}c\vspace{\parskip}d'),
 'pdf': ('', '', r'\pdfpagewidth=10cm \hsize=4in \vsize=5in o'),
 # argument scanning
 'openout': ('', '', '\\openout\\myfile=foo.txt \\parindent=9pt after'),
 'dimen-internal': ('', '', r'\hspace{2\parindent}\rule{\parindent}{1pt}\hskip 1.5\parskip k'),
 'glue-args': ('', '', r'\vskip 3pt plus 1fil minus 2pt l\hskip\parskip m'),
 'optional': ('', '', r'\item[] \\[3pt] \linebreak[2] \footnote[3]{note} n'),
 'ifx': ('', r'\def\fa{1}\def\fb{1}', r'\ifx\fa\fb same\else diff\fi \if aab\fi \ifcat ab c\fi'),
 'xtok': ('ifthen', '', r'\ifthenelse{\equal{a}{a}}{T}{F} \ifthenelse{\isodd{3}}{O}{E}'),
 'whiledo': ('ifthen', r'\newcounter{wd}', r'\whiledo{\value{wd}<3}{\stepcounter{wd}x}'),
 'lengthtest': ('ifthen', '', r'\ifthenelse{\lengthtest{\parindent<3pt}}{T}{F}'),
 'booleans': ('ifthen', r'\newboolean{bb}\setboolean{bb}{true}', r'\ifthenelse{\boolean{bb}}{T}{F}'),
 'csname': ('', '', r'\expandafter\def\csname foo bar\endcsname{fb}\csname foo bar\endcsname'),
 'numbers': ('', '', r'''\ifnum"1F=31 h\fi \ifnum'17=15 o\fi \ifnum`a=97 c\fi \romannumeral 14 \number\tolerance'''),
 'ifcase': ('', '', r'\ifcase 2 a\or b\or c\else d\fi \ifodd 3 o\fi'),
 'newif': ('', r'\newif\ifmine', r'\minetrue\ifmine on\else off\fi\minefalse'),
 # macros
 'def': ('', r'\def\mac#1{<#1>}\newcommand{\cmd}[2][d]{(#1:#2)}', r'\mac{x}\cmd{y}\cmd[p]{q}'),
 'usedef': ('', '', r'\mac{x}\cmd{y} \foo \barA{z}'),
 'redef': ('', r'\renewcommand{\emph}[1]{EMPH(#1)}\renewcommand{\textbf}[1]{BF(#1)}', r'\emph{e}\textbf{f}'),
 'letdef': ('', r'\let\oldtt\texttt \let\foo\emph \def\texttt#1{T#1}', r'\texttt{a}\oldtt{b}\foo{c}'),
 'newenv': ('', r'\newenvironment{myenv}[1]{BEGIN #1}{END}', r'\begin{myenv}{arg}inside\end{myenv}'),
 'redefsec': ('', r'\renewcommand{\thesection}{\Alph{section}}\renewcommand{\theequation}{\roman{equation}}', 'rs'),
 'gdef': ('', '', r'{\gdef\gg{G}\def\hh{H}\hh}\gg'),
 # catcodes
 'catcode': ('', r'\catcode`\!=\active \def!{BANG}', r'a!b'),
 'catcode-pre': ('', '\\catcode`\\|=13\n\\def|{PIPE}\n\\catcode`\\@=11\n', 'a|b'),
 'makeat': ('', '\\makeatletter\\def\\a@b{AB}', r'\a@b '),
 'usechars': ('', '', r'a!b|c@d"e;f'),
 'shortvrb': ('shortvrb', r'\MakeShortVerb{\|}', r'|x_$y| end'),
 'percent': ('', '', '\\catcode`\\%=12 a%b\n'),
 # sections
 'sections': ('', '', '\\section{One}\\label{s:one} t \\subsection{Two} u \\subsubsection{Three} v\n\n\\paragraph{P} w '),
 'chapter': ('', '', r'\chapter{Chap}\label{c:a} t \section{Sec} u'),
 'starsec': ('', '', r'\section*{Star} t \section[short]{Long title} u'),
 'appendix': ('', '', r'\section{Before}\appendix\section{App} a'),
 'part': ('', '', r'\part{Part} p'),
 'secnum': ('', r'\setcounter{secnumdepth}{1}\setcounter{tocdepth}{1}', r'\section{A}\subsection{B} c'),
 'toc': ('', '', r'\tableofcontents \section{T1} a \section{T2} b'),
 'title': ('', r'\title{The Title}\author{Me \and You}\date{\today}', r'\maketitle \begin{abstract}abs\end{abstract}'),
 'matter': ('', '', r'\frontmatter x \mainmatter y \backmatter z'),
 # lists
 'itemize': ('', '', r'\begin{itemize}\item a \item b \begin{itemize}\item c\end{itemize}\end{itemize}'),
 'enum': ('', '', r'\begin{enumerate}\item\label{it:a} a \item b \begin{enumerate}\item\label{it:b} c \item d\end{enumerate}\item e\end{enumerate}\ref{it:a}\ref{it:b}'),
 'enum4': ('', '', r'\begin{enumerate}\item a\begin{enumerate}\item b\begin{enumerate}\item c\begin{enumerate}\item\label{it:d} d\end{enumerate}\end{enumerate}\end{enumerate}\end{enumerate}\ref{it:d}'),
 'descr': ('', '', r'\begin{description}\item[x] a \item[y] b\end{description}'),
 'list': ('', '', r'\begin{list}{-}{\leftmargin=3pt}\item a\end{list}\begin{trivlist}\item b\end{trivlist}'),
 'enumpkg': ('enumerate', '', r'\begin{enumerate}[(i)]\item a\item b\end{enumerate}'),
 'setenumi': ('', '', r'\begin{enumerate}\setcounter{enumi}{4}\item a\end{enumerate}'),
 'quote': ('', '', r'\begin{quote}q\end{quote}\begin{quotation}r\end{quotation}\begin{center}c\end{center}'),
 'verse': ('', '', r'\begin{verse}q\\r\end{verse}'),
 'versepkg': ('verse', '', r'\begin{verse}[3cm]q\\r\end{verse}\begin{altverse}x\end{altverse}'),
 # math
 'math': ('', '', r'$a_1^2$ and \(b\) and \[c\] and $$d$$'),
 'mathbox': ('', '', r'$a\mbox{text $b$ more}c$ $\hbox{q}$'),
 'eq': ('', '', r'\begin{equation}\label{e:a}x=y\end{equation}\ref{e:a}\begin{eqnarray}a&=&b\\c&=&d\label{e:b}\end{eqnarray}\ref{e:b}'),
 'ams': ('amsmath', r'\DeclareMathOperator{\foo}{foo}', r'\begin{align}a&=b\label{e:c}\\c&=d\end{align}\eqref{e:c} $\foo x\text{if $y$}$'),
 'array': ('', '', r'$\left(\begin{array}{cc}a&b\\c&d\end{array}\right)$ $\frac{1}{\sqrt{2}}$'),
 'mathdef': ('', r'\newcommand{\R}{\mathbb{R}}\def\vec#1{\mathbf{#1}}', r'$\R\vec{x}$'),
 'ensure': ('', '', r'\ensuremath{x} $\ensuremath{y}$ \mbox{$z$}'),
 'thm': ('', r'\newtheorem{thm}{Theorem}[section]\newtheorem{lem}[thm]{Lemma}', r'\begin{thm}[N]\label{t:a} x\end{thm}\begin{lem}y\end{lem}\ref{t:a}'),
 'amsthm': ('amsthm', r'\swapnumbers\theoremstyle{definition}\newtheorem{defn}{Definition}\newtheorem*{rem}{Remark}', r'\begin{defn}x\end{defn}\begin{rem}z\end{rem}\begin{proof}p\end{proof}'),
 'amsthm2': ('amsthm', r'\newtheorem{defn}{Theorem}', r'\begin{defn}x\end{defn}\begin{proof}[Other]p\end{proof}'),
 # tables
 'tab': ('', '', r'\begin{tabular}{|l|c|r|}\hline a&b&c\\\cline{1-2}\multicolumn{2}{c}{d}&e\\\hline\end{tabular}'),
 'tab2': ('', '', r'\begin{tabular}{lp{3cm}@{x}r}a&\bfseries b&c\\[3pt] d&e&f\end{tabular}'),
 'tabstar': ('', '', r'\begin{tabular*}{5cm}{*{2}{c}l}a&b&c\end{tabular*}'),
 'longtable': ('longtable', '', r'\begin{longtable}{ll}h&i\\\endhead a&b\\c&d\\\end{longtable}'),
 'arrstretch': ('', r'\renewcommand{\arraystretch}{2}', r'\tabcolsep=9pt \begin{tabular}{l}a\end{tabular}'),
 'tabularx': ('tabularx', '', r'\begin{tabularx}{5cm}{lX}a&b\end{tabularx}'),
 'booktabs': ('booktabs', '', r'\begin{tabular}{ll}\toprule a&b\\\midrule c&d\\\bottomrule\end{tabular}'),
 'tabbing': ('', '', r'\begin{tabbing}a \= b \kill c \> d \\ e\end{tabbing}'),
 # floats
 'figure': ('', '', r'\begin{figure}x\caption{Cap}\label{f:a}\end{figure}\begin{table}[h]y\caption[s]{Tab}\end{table}\ref{f:a}'),
 'lof': ('', '', r'\listoffigures\begin{figure}x\caption{Cap}\end{figure}'),
 'newfloat': ('float', r'\newfloat{prog}{ht}{lop}[section]\floatname{prog}{Program}', r'\begin{prog}x\caption{P}\label{f:p}\end{prog}\ref{f:p}'),
 'subfig': ('subfig', '', r'\begin{figure}\subfloat[a]{x}\caption{C}\end{figure}'),
 'wrapfig': ('wrapfig', '', r'\begin{wrapfigure}{r}{3cm}x\caption{W}\end{wrapfigure}'),
 'caption': ('caption', r'\captionsetup{font=small}', r'\begin{figure}x\caption{C}\end{figure}'),
 # refs, notes
 'refs': ('', '', r'\ref{s:one} \pageref{s:one} \ref{nolabel} \section{S}\label{s:one}'),
 'hyper': ('hyperref', '', r'\ref*{s:x}\autoref{s:x}\href{http://a.b/}{c}\url{http://x.y/}\section{S}\label{s:x}\hyperref[s:x]{go}'),
 'refstar': ('', '', r'\section{S}\label{s:y}\ref{s:y}\pageref{s:y}'),
 'cleveref': ('cleveref', '', r'\section{S}\label{s:z}\cref{s:z}\Cref{s:z}'),
 'footnote': ('', '', r'a\footnote{n1} b\footnotemark\footnotetext{n2} c\thanks{t}'),
 'setfn': ('', r'\setcounter{footnote}{7}\renewcommand{\thefootnote}{\fnsymbol{footnote}}', r'a\footnote{n}'),
 'bib': ('', '', r'\cite{k1}\cite[p.~3]{k2}\begin{thebibliography}{9}\bibitem{k1} K1 \bibitem[L]{k2} K2\end{thebibliography}'),
 'bibfile': ('', '', r'\cite{zz}\bibliographystyle{plain}\bibliography{refs}'),
 'natbib': ('natbib', '', r'\citet{k1}\citep[see][p.3]{k1}\begin{thebibliography}{9}\bibitem[Au(2001)]{k1} K1\end{thebibliography}'),
 'citealias': ('natbib', r'\defcitealias{k1}{Paper~I}', r'\citetalias{k1}\citepalias{k1}\begin{thebibliography}{9}\bibitem[Au(2001)]{k1} K1\end{thebibliography}'),
 'citealiasuse': ('natbib', '', r'\citetalias{k1}\citepalias{k1}\begin{thebibliography}{9}\bibitem[Au(2001)]{k1} K1\end{thebibliography}'),
 'natbibnum': ('natbib:numbers,sectionbib', r'\citestyle{nature}\bibpunct{<}{>}{;}{a}{,}{,}', r'\citep{k1}\begin{thebibliography}{9}\bibitem[Au(2001)]{k1} K1\end{thebibliography}\bibliography{refs}'),
 'index': ('makeidx', r'\makeindex', r'a\index{alpha}b\index{beta!sub}c\index{x@$y$}\printindex'),
 'theindex': ('', '', r'\begin{theindex}\item a, 1\subitem b, 2\end{theindex}'),
 # packages
 'color': ('color', r'\definecolor{mine}{rgb}{1,0.5,0}', r'\textcolor{mine}{x}\colorbox{red}{y}{\color{blue}z}'),
 'usecolor': ('color', '', r'\textcolor{mine}{x}\fcolorbox{red}{mine}{y}'),
 'xcolor': ('xcolor', r'\definecolor{mine}{HTML}{FF8000}\colorlet{other}{mine!50!black}', r'\textcolor{other}{x}\textcolor{red!30}{y}'),
 'xcolordvips': ('xcolor:dvipsnames', '', r'\textcolor{Apricot}{x}'),
 'graphicx': ('graphicx', r'\graphicspath{{figs/}}\DeclareGraphicsExtensions{.pdf,.png}', r'\includegraphics[width=3cm]{nofile}\rotatebox{90}{r}'),
 'graphicx2': ('graphicx', '', r'\includegraphics{nofile}'),
 'babel': ('babel:german', '', r'\today \begin{abstract}a\end{abstract}"a'),
 'babelfr': ('babel:french', '', r'\selectlanguage{french}\figurename \begin{figure}x\caption{c}\end{figure}'),
 'names': ('', '', r'\figurename \chaptername \contentsname \today'),
 'renames': ('', r'\renewcommand{\figurename}{Abb.}\renewcommand{\abstractname}{Zus.}', r'\begin{figure}x\caption{c}\end{figure}\begin{abstract}a\end{abstract}'),
 'verbatim': ('', '', '\\begin{verbatim}\n a % b \\c {\n\\end{verbatim}\\verb|x$y|\\verb*+a b+'),
 'alltt': ('alltt', '', '\\begin{alltt}\n a \\emph{b} $\n\\end{alltt}'),
 'fancyvrb': ('fancyvrb', '', '\\begin{Verbatim}[numbers=left]\n a $ b\n\\end{Verbatim}'),
 'listings': ('listings', r'\lstset{language=Python}', '\\begin{lstlisting}[language=C]\nint x;\n\\end{lstlisting}'),
 'comment': ('comment', '', '\\begin{comment}\nhidden \\broken{\n\\end{comment}shown'),
 'url': ('url', r'\urlstyle{sf}', r'\url{http://a.b/c_d%e}'),
 'minitoc': ('minitoc', '', r'\section{M} x'),
 'multicol': ('multicol', '', r'\begin{multicols}{2}a b\end{multicols}'),
 'fancyhdr': ('fancyhdr', r'\pagestyle{fancy}\lhead{L}\cfoot{C}', 'fh'),
 'graphics-cmds': ('', '', r'\begin{picture}(10,10)\put(1,1){x}\end{picture}\rule{1pt}{2pt}'),
 'accents': ('', '', r"""\'e\`a\^o\"u\c c\~n\ss\AE{} -- --- ``q'' ... \ldots"""),
 'font': ('', '', r'{\bf b}{\it i}\textsc{sc}{\large l}\begin{small}s\end{small}\em e'),
 'group': ('', '', r'{a{b\begingroup c\endgroup}}d'),
 'input': ('', '', r'\input{sub.tex}'),
 'babelother': ('babel:german,english', '', r'\begin{otherlanguage}{german}\today\end{otherlanguage}\foreignlanguage{german}{w}'),
 'tikz': ('todonotes', '', r'\todo{x}'),
 'counters': ('', r'\newcounter{mc}[section]\setcounter{page}{5}', r'\stepcounter{mc}\arabic{mc}\addtocounter{mc}{3}\Roman{mc}\section{S}\themc'),
 'time': ('', '', r'\ifnum\year>2031 late\else early\fi \ifnum\month>6 h2\else h1\fi \ifnum\day>15 d2\else d1\fi \ifnum\time>720 pm\else am\fi \the\year\ \the\month\ \the\day\ \today'),
 'textcomp': ('textcomp', '', r'\texteuro\textcelsius'),
 'iftex': ('iftex', '', r'\ifpdftex p\else n\fi'),
 'ifthenundef': ('ifthen', '', r'\ifthenelse{\isundefined{\mac}}{U}{D}'),
 'moving': ('', '', r'\section{A $x^2$ \emph{b}\footnote{f}} c'),
 'hboxes': ('', '', r'\hbox{a}\vbox{b}\mbox{$x$}\fbox{c}\raisebox{1pt}{d}'),
 'minipage': ('', '', r'\begin{minipage}{3cm}a\footnote{b}\end{minipage}'),
 'afterassign': ('', '', r'\begingroup\lccode`\~=`\;\lowercase{\endgroup\def\x{~}}y'),
 'write': ('', '', r'\write\foo{text}\closeout\foo z'),
 'uppercase': ('', '', r'\uppercase{abc}\lowercase{DEF}\MakeUppercase{x}'),
 'bibitemstyle': ('', r'\bibliographystyle{alpha}', 'bs'),
 'tocloft': ('tocbibind', '', r'\section{X} y'),
 'rotating': ('rotating', '', r'\begin{sidewaysfigure}x\caption{s}\end{sidewaysfigure}'),
 'geometry': ('geometry', r'\geometry{margin=1in}', 'g'),
 'setspace': ('setspace', r'\doublespacing', 's'),
 'changebar': ('changebar', '', r'\begin{changebar}a\end{changebar}'),
 'fancybox': ('fancybox', '', r'\shadowbox{a}\ovalbox{b}'),
}

# constructs left open when the input ends right after them
OPEN = {
 'o-math': r'text $x+y', 'o-dmath': r'text $$x', 'o-paren': r'\(x', 'o-brack': r'\[ y',
 'o-mbox': r'\mbox{a $x} b', 'o-group': r'{a{b', 'o-begingroup': r'\begingroup a',
 'o-item': r'\begin{itemize}\item a\begin{enumerate}\item b', 'o-enum': r'\begin{enumerate}\item a',
 'o-env': r'\begin{center} a', 'o-tab': r'\begin{tabular}{ll}a&b', 'o-eq': r'\begin{equation} x',
 'o-cond': r'\iftrue a \iffalse b', 'o-else': r'\ifnum1<2 a\else b',
 'o-endmath': r'a $x$ b $', 'o-hbox': r'$a\hbox{b $c', 'o-fig': r'\begin{figure}x\caption{c}',
 'o-verb': '\\begin{verbatim}\n a', 'o-def': r'a\def\foo',
 'o-hskip': r'a\hskip', 'o-catcode': r'a\catcode`\$=12 b$c',
 'o-openout': r'a\openout\f=', 'o-kern': r'a\vskip\parskip', 'o-fut': r'\futurelet\x\y',
 'o-section': r'\section{A} a \subsection', 'o-bslash': 'a\\', 'o-list2': r'\begin{list}{}{}\item x',
 'o-mathitem': r'\begin{itemize}\item $x', 'o-mboxopen': r'a \mbox{b', 'o-foot': r'a\footnote{b',
 'o-cell': r'\begin{tabular}{l}$x & y', 'o-ensure': r'\ensuremath{x', 'o-text': r'$\text{a $b',
  'o-ifx': r'a\ifx\a',
 'o-noenddoc': 'plain text', 'o-index': r'\index{a', 'o-comment': 'a % comment',
}

CLASSES = ['article', 'article', 'article', 'book', 'report', 'amsart', 'amsbook', 'memoir', 'beamer']
# what B always contains: constructs whose result shows leaked interpreter state
SENSORS = ['parindent?', 'enum4', 'math', 'mathbox', 'refstar', 'tab', 'theindex', 'footnote', 'descr', 'verse']
REGS = ['parindent', 'parskip', 'leftskip', 'rightskip', 'hangindent', 'textwidth', 'columnsep',
        'mathsurround', 'hsize', 'vsize', 'tabcolsep', 'topsep', 'itemsep', 'fboxrule']
COUNTS = ['tolerance', 'hyphenpenalty', 'hangafter', 'hbadness', 'clubpenalty']
RENDERERS = ['HTML5', 'HTML5', 'HTML5', 'XHTML', 'Text', 'ManPage', None]


def sensor_block():
    out = []
    for r in REGS:
        out.append(r'\ifdim\%s=0pt 0\else\ifdim\%s<0pt -\else\ifdim\%s<6pt a\else\ifdim\%s<13pt b\else\ifdim\%s<1in c\else d\fi\fi\fi\fi\fi' % ((r,) * 5))
    for c in COUNTS:
        out.append(r'\ifnum\%s<60 a\else\ifnum\%s<300 b\else\ifnum\%s<950 c\else d\fi\fi\fi' % ((c,) * 3))
    return ' '.join(out)


def gen_doc(rng, tier, is_b):
    names = sorted(SN)
    n = rng.randint(1, 6) if not is_b else rng.randint(2, 7)
    doc = {'cls': rng.choice(CLASSES if rng.random() < .7 else ['article', 'book']),
           'clsopts': rng.choice(['', '', '', '12pt', 'twocolumn', 'german']),
           'sn': rng.sample(names, n),
           'end': '', 'repeat': 0}
    if rng.random() < (.45 if not is_b else .15):
        doc['end'] = rng.choice(sorted(OPEN))
    if is_b:
        doc['sensors'] = True
        doc['sn'] += rng.sample([s for s in SENSORS if s in SN], rng.randint(1, 4))
    doc['renderer'] = rng.choice(RENDERERS if rng.random() < .6 else ['HTML5'])
    cfg = {}
    if rng.random() < .4:
        cfg['files.split-level'] = rng.choice([-10, -1, 0, 1, 2, 3])
    if rng.random() < .2:
        cfg['files.filename'] = rng.choice(['index [$id, sect$num(4)]', 'x-$num', '$jobname-[$id, $title(3), f$num]',
                                            'index [sect$num(2)]'])
    if rng.random() < .15:
        cfg['document.toc-depth'] = rng.choice([0, 1, 5])
    if rng.random() < .1:
        cfg['document.sec-num-depth'] = rng.choice([0, 1, 4])
    if rng.random() < .1:
        cfg['files.escape-high-chars'] = True
    if rng.random() < .15:
        cfg['document.title'] = 'Forced title'
    if rng.random() < .1:
        cfg['general.theme'] = rng.choice(['default', 'default', 'minimal'])
    if rng.random() < .2:
        cfg['document.lang-terms'] = rng.choice([['terms1.xml'], ['terms2.xml'], ['terms2.xml', 'terms1.xml']])
    if rng.random() < .15:
        cfg['general.extra-templates'] = rng.choice([['tpl1'], ['tpl2'], ['tpl1', 'tpl2']])
    if rng.random() < .1:
        cfg['document.disable-charsub'] = rng.choice([['--'], ['``', "''"]])
    if rng.random() < .1:
        cfg['files.bad-chars'] = rng.choice([' ', 'aeiou'])
    if doc['renderer'] == 'HTML5':
        if rng.random() < .3:
            k, v = rng.choice([('use-mathjax', False), ('display-toc', False), ('breadcrumbs-level', 1),
                               ('localtoc-level', 1), ('mathjax-dollars', True), ('extra-css', ['x.css']),
                               ('extra-js', ['x.js']), ('use-theme-css', False), ('theme-css', 'green')])
            cfg['html5.' + k] = v
    if rng.random() < .25:
        cfg['general.packages-dirs'] = rng.choice([['p1'], ['p2'], ['p1', 'p2'], ['p2', 'p1'], []])
        doc['local'] = rng.choice(['lpack', 'lpack', 'lpackb', 'lpack,lpackb'])
    if rng.random() < .15:
        cfg['general.load-tex-packages'] = True
        doc['sty'] = rng.choice([1, 2])
    doc['cfg'] = cfg
    # clock at which the document is processed
    doc['t'] = rng.choice([0, 0, 5, 3600, 86400, 86400 * 40, 86400 * 400, -86400 * 3])
    doc['dir'] = rng.choice(['same', 'own'])
    return doc


def gen(rng, tier, index):
    kmax = 3 if tier == 'quick' else 6
    k = rng.randint(1, kmax)
    docs = [gen_doc(rng, tier, False) for _ in range(k)]
    b = gen_doc(rng, tier, True)
    mode = rng.random()
    if mode < .15:
        # B again: the same input twice in one interpreter
        docs[rng.randrange(len(docs))] = json.loads(json.dumps(b))
    elif mode < .45:
        # an A that shares constructs with B
        a = docs[rng.randrange(len(docs))]
        a['sn'] = a['sn'] + rng.sample(b['sn'], min(2, len(b['sn'])))
    plan = {'docs': docs, 'b': b}
    if rng.random() < .15:
        # the very same configuration object is used for every document
        plan['shared'] = True
        for d in docs:
            d['cfg'] = json.loads(json.dumps(b['cfg']))
            d['renderer'] = b['renderer']
    return plan


def shrink(plan):
    yield from shrink_lists(plan, [('docs',)])
    for i in range(len(plan['docs'])):
        yield from shrink_lists(plan, [('docs', i, 'sn')])
    yield from shrink_lists(plan, [('b', 'sn')])
    for path in [('docs', i) for i in range(len(plan['docs']))] + [('b',)]:
        d = plan
        for p in path:
            d = d[p]
        for key, val in (('end', ''), ('cfg', {}), ('clsopts', ''), ('t', 0), ('dir', 'same'), ('cls', 'article'),
                         ('renderer', None), ('renderer', 'HTML5'), ('sensors', False),
                         ('local', ''), ('sty', 0)):
            if d.get(key, val) != val:
                yield replace_at(plan, path, dict(d, **{key: val}))


def source(doc):
    pk = []
    pre = []
    body = []
    for s in doc['sn']:
        p, a, b = SN[s]
        if p and p not in pk:
            pk.append(p)
        pre.append(a)
        body.append(b)
    out = ['\\documentclass%s{%s}' % ('[%s]' % doc['clsopts'] if doc['clsopts'] else '', doc['cls'])]
    seen = set()
    for p in pk:
        name, _, opt = p.partition(':')
        if name in seen:
            continue
        seen.add(name)
        out.append('\\usepackage%s{%s}' % ('[%s]' % opt if opt else '', name))
    if doc.get('local'):
        out += ['\\usepackage{%s}' % x for x in doc['local'].split(',')]
    if doc.get('sty'):
        out.append('\\usepackage{locsty}')
    out += [a for a in pre if a]
    out.append('\\begin{document}')
    if doc.get('local'):
        out.append(r'[\%s]' % doc['local'].split(',')[0])
    if doc.get('sty'):
        out.append(r'[\loccmd{x}]')
    if doc.get('sensors'):
        out.append(sensor_block() + '\n')
    for b in body:
        out.append(b)
        out.append('')
    if doc['end']:
        out.append(OPEN[doc['end']])
        return '\n'.join(out)
    out.append('\\end{document}')
    return '\n'.join(out) + '\n'


# ------------------------------------------------------------------ clock seam
EPOCH = 1924948800        # 2030-12-31 12:00 UTC


class Clock:
    now = float(EPOCH)


_real_strftime, _real_localtime, _real_gmtime = time.strftime, time.localtime, time.gmtime
_DT = _dt.datetime


class SimDatetime(_DT):
    @classmethod
    def now(cls, tz=None):
        return _DT.fromtimestamp(Clock.now, tz)

    @classmethod
    def today(cls):
        return _DT.fromtimestamp(Clock.now)

    @classmethod
    def utcnow(cls):
        return _DT.utcfromtimestamp(Clock.now)


class SimDate(_dt.date):
    @classmethod
    def today(cls):
        return _DT.fromtimestamp(Clock.now).date()


def install_clock():
    """In an interpreter (forked child): every clock read goes to Clock.now."""
    time.time = lambda: Clock.now
    time.time_ns = lambda: int(Clock.now * 1e9)
    time.localtime = lambda s=None: _real_localtime(Clock.now if s is None else s)
    time.gmtime = lambda s=None: _real_gmtime(Clock.now if s is None else s)
    time.ctime = lambda s=None: time.asctime(_real_localtime(Clock.now if s is None else s))
    time.strftime = lambda f, t=None: _real_strftime(f, _real_localtime(Clock.now) if t is None else t)
    olddate = _dt.date
    _dt.datetime, _dt.date = SimDatetime, SimDate
    for name, mod in list(sys.modules.items()):
        if name.startswith('plasTeX') and mod is not None:
            for k, v in list(vars(mod).items()):
                if v is _DT:
                    setattr(mod, k, SimDatetime)
                elif v is olddate:
                    setattr(mod, k, SimDate)
                elif callable(v) and getattr(v, '__module__', None) == 'time' and k in (
                        'time', 'localtime', 'strftime', 'gmtime'):
                    setattr(mod, k, getattr(time, k))
    # what importing the module at the start of this interpreter would have stored
    import importlib
    P = importlib.import_module('plasTeX.Base.TeX.Parameters')
    lt = time.localtime()
    for name, v in (('time', lt.tm_hour * 60 + lt.tm_min), ('day', lt.tm_mday),
                    ('month', lt.tm_mon), ('year', lt.tm_year)):
        cls = getattr(P, name, None)
        if isinstance(cls, type) and 'value' in vars(cls) and isinstance(cls.value, int):
            cls.value = type(cls.value)(v)


# ------------------------------------------------------------------ interpreter state
SKIP_MODULES = ('plasTeX.Logging', 'plasTeX.Renderers', 'plasTeX.Imagers')


def canon(v, depth=0):
    """JSON-able description of a value, or None if it is not plain data."""
    if v is None or isinstance(v, (bool, str)):
        return repr(v)
    if isinstance(v, (int, float)):
        return '%s:%r' % (type(v).__name__, v)
    if depth > 4:
        return '...'
    if isinstance(v, (list, tuple)):
        return '%s[%s]' % (type(v).__name__, ','.join(str(canon(x, depth + 1)) for x in v))
    if isinstance(v, (set, frozenset)):
        return '%s{%s}' % (type(v).__name__, ','.join(sorted(str(canon(x, depth + 1)) for x in v)))
    if isinstance(v, dict):
        return 'dict{%s}' % ','.join('%s=%s' % (canon(k, depth + 1), canon(x, depth + 1))
                                     for k, x in sorted(v.items(), key=lambda i: str(i[0])))
    if isinstance(v, type):
        return '<class %s.%s>' % (v.__module__, v.__qualname__)
    return '<%s>' % type(v).__name__


def interesting(name):
    if name.startswith('__') or name.startswith('@') or 'cache' in name.lower():
        return False
    if name.startswith('_') and name != '_enablelevel':
        return False
    return True


def class_state(cls, prefix, out, seen):
    if cls in seen:
        return
    seen.add(cls)
    for k, v in list(vars(cls).items()):
        if not interesting(k):
            continue
        if isinstance(v, type):
            if v.__module__ == cls.__module__ and v.__qualname__.startswith(cls.__qualname__ + '.'):
                class_state(v, prefix + '.' + k, out, seen)
            else:
                out[prefix + '.' + k] = canon(v)
        elif callable(v) or isinstance(v, (property, classmethod, staticmethod)) or hasattr(v, '__get__'):
            out[prefix + '.' + k] = 'function %s' % getattr(v, '__qualname__', type(v).__name__)
        else:
            out[prefix + '.' + k] = canon(v)


def module_state(name):
    out = {}
    mod = sys.modules.get(name)
    if mod is None:
        return out
    seen = set()
    for k, v in list(vars(mod).items()):
        if isinstance(v, type):
            if v.__module__ == name:
                class_state(v, '%s.%s' % (name, k), out, seen)
        elif isinstance(v, (list, dict, set, bool, int, float, str)) or v is None:
            if interesting(k) and k != 'idgen':
                out['%s.%s' % (name, k)] = canon(v)
    return out


def modules():
    return sorted(n for n, m in sys.modules.items() if n.startswith('plasTeX') and m is not None
                  and not n.startswith(SKIP_MODULES))


def import_reference():
    """State of every package module right after its own import, in a scratch interpreter."""
    import importlib
    import pkgutil
    import plasTeX.Packages
    ref = {}
    for m in sorted(x.name for x in pkgutil.iter_modules(plasTeX.Packages.__path__)):
        full = 'plasTeX.Packages.' + m
        before = set(modules())
        try:
            importlib.import_module(full)
        except Exception:
            continue
        for name in modules():
            if name not in before:
                ref[name] = module_state(name)
    return ref


_REF = None


def prepare(tier):
    global _REF
    if _REF is not None:
        return
    r = in_child(lambda: import_reference(), 240)
    _REF = r[1] if r[0] == 'ok' else {}


# ------------------------------------------------------------------ running interpreters
def in_child(fn, limit):
    """Run fn() in a forked child; ('ok', value) | ('err', text) | ('hang', '')."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(('ok', fn()))
            except BaseException as e:
                data = pickle.dumps(('err', ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]))
            os.write(w, struct.pack('>Q', len(data)))
            p = 0
            while p < len(data):
                p += os.write(w, data[p:p + 65536])
        finally:
            os._exit(0)
    os.close(w)
    import select
    buf = b''
    end = time.monotonic() + limit
    try:
        while True:
            ready, _, _ = select.select([r], [], [], max(0.0, end - time.monotonic()))
            if not ready:
                os.kill(pid, signal.SIGKILL)
                return ('hang', '')
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    finally:
        os.close(r)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    if len(buf) < 8 or len(buf) - 8 < struct.unpack('>Q', buf[:8])[0]:
        return ('err', 'interpreter died')
    return pickle.loads(buf[8:])


GENID = re.compile(r'a\d{10}(?!\d)')


LPACK = """from plasTeX import Command, Environment
from plasTeX.Base import section
def ProcessOptions(options, document):
    document.context.newcounter('%(name)s', initial=%(n)d)
class %(name)s(Command):
    text = '%(name)s of %(dir)s'
    def digest(self, tokens):
        self.append(self.ownerDocument.createTextNode(self.text))
    @property
    def source(self):
        return self.text
class emph(Command):
    args = 'self'
    def digest(self, tokens):
        self.append(self.ownerDocument.createTextNode('+%(dir)s'))
"""
TERMS = """<languages><terms lang="en"><term name="today">%(d)s</term><term name="chapter">Chap%(n)d</term>
<term name="figure">Fig%(n)d</term><term name="contents">Toc%(n)d</term></terms>
<terms lang="de"><term name="figure">Bild%(n)d</term></terms></languages>
"""


def options(doc):
    opts = dict(doc['cfg'])
    if doc['renderer'] is not None:
        opts['general.renderer'] = doc['renderer']
        opts['general.xml'] = True
        opts['files.directory'] = 'out'
        if doc['renderer'] not in ('HTML5', 'XHTML') and 'general.theme' in opts:
            del opts['general.theme']
    return opts


def support_files():
    """The same auxiliary files lie in every working directory."""
    for n in (1, 2):
        os.makedirs('p%d' % n, exist_ok=True)
        for name in ('lpack', 'lpackb'):
            with open('p%d/%s.py' % (n, name), 'w') as fh:
                fh.write(LPACK % {'name': name, 'n': n, 'dir': 'p%d' % n})
        with open('terms%d.xml' % n, 'w') as fh:
            fh.write(TERMS % {'n': n, 'd': '%d.%m.%Y' if n == 1 else '%e %B'})
        os.makedirs('tpl%d' % n, exist_ok=True)
        with open('tpl%d/x.jinja2s' % n, 'w') as fh:
            fh.write('name: emph lpack\n<em class="tpl%d">{{ obj }}</em>\n\nname: footnote\nT%d\n' % (n, n))
        with open('tpl%d/x.zpts' % n, 'w') as fh:
            fh.write('name: textbf\n<b class="tpl%d" tal:content="self">x</b>\n\n' % n)
    for f in ('x.css', 'x.js'):
        with open(f, 'w') as fh:
            fh.write('/* */')


def process(doc, job, config=None):
    """One document through the real pipeline in the current directory."""
    opts = options(doc)
    with open(job + '.tex', 'w') as fh:
        fh.write(source(doc))
    support_files()
    if doc.get('sty'):
        with open('locsty.sty', 'w') as fh:
            fh.write('\\newcommand{\\loccmd}[1]{sty%d #1}\\newcounter{loccnt}\n' % doc['sty'])
    with open('sub.tex', 'w') as fh:
        fh.write('included \\emph{text} \\parindent=3pt\n')
    with open('refs.bbl', 'w') as fh:
        fh.write('')
    with open(job + '.bbl', 'w') as fh:
        fh.write('\\begin{thebibliography}{1}\n\\bibitem{zz} Entry\n\\end{thebibliography}\n')
    out = {}
    try:
        if doc['renderer'] is None:
            cfg = config or pt.make_config(opts)
            tex = pt.plasTeX.Compile.parse(job + '.tex', cfg)
            out['xml'] = tex.ownerDocument.toXML()
        else:
            pt.build(job + '.tex', opts, config)
        out['status'] = 'ok'
    except Exception as e:
        out['status'] = 'error %s' % type(e).__name__
        out['detail'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
    files = {}
    for root, dirs, names in os.walk('.'):
        dirs.sort()
        for n in sorted(names):
            p = os.path.join(root, n)
            if n.endswith(('.tex', '.bbl', '.paux', '.log')) or '/styles' in root or '/js' in root or \
               '/symbol-defs' in root or '/icons' in root or '/fonts' in root:
                continue
            if n == 'images.tex':
                continue
            with open(p, 'rb') as fh:
                files[p[2:]] = fh.read().decode('utf-8', 'replace')
    # stylesheets written from document data
    for n in ('amsthm.css', 'pygments.css'):
        p = os.path.join('out', 'styles', n)
        if os.path.exists(p):
            with open(p, 'rb') as fh:
                files[p] = fh.read().decode('utf-8', 'replace')
    text = [out.get('xml', '')] + [k + '\n' + v for k, v in sorted(files.items())]
    ids = sorted(set(i for t in text for i in GENID.findall(t)))
    rank = {i: 'genid%d' % n for n, i in enumerate(ids)}

    def norm(t):
        return GENID.sub(lambda m: rank[m.group(0)], t)
    out['xml'] = norm(out.get('xml', ''))
    out['files'] = {norm(k): norm(v) for k, v in files.items()}
    return out


def workdir(base, name):
    d = os.path.join(base, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def interpreter(plan, base, with_history):
    """Life of one interpreter."""
    t = EPOCH
    seq = [('d%d' % i, d) for i, d in enumerate(plan['docs'])] if with_history else []
    total = sum(d['t'] for d in plan['docs']) + plan['b']['t']
    Clock.now = float(EPOCH if with_history else EPOCH + total)
    install_clock()
    for n in ('builddir',):
        workdir(base, n)
    report = {'docs': [], 'state': [], 'jump': 0}
    ref = {}
    start = set(modules())
    for n in start:
        ref.update(module_state(n))
    known = dict(ref)
    pk = _REF or {}

    def check_state(label):
        diffs = []
        for n in modules():
            cur = module_state(n)
            if n in start:
                base_state = {k: v for k, v in ref.items() if k.startswith(n + '.')}
            elif n in pk:
                base_state = pk[n]
            else:
                continue
            for k, v in sorted(base_state.items()):
                if k not in cur:
                    # entry belongs to a submodule with the same prefix
                    if n in start and any(k.startswith(m + '.') and len(m) > len(n) for m in start):
                        continue
                    diffs.append((k, v, 'gone'))
                elif cur[k] != v:
                    if v in ('dict{}', 'set{}'):
                        # an empty table that fills up may be a mere cache; if it
                        # matters, the comparison of the results tells
                        continue
                    diffs.append((k, v, cur[k]))
        return diffs
    shared = None
    if plan.get('shared') and with_history:
        shared = pt.make_config(options(plan['b']))
    for name, d in seq:
        Clock.now += d['t']
        report['jump'] += abs(d['t'])
        os.chdir(workdir(base, 'w' if d['dir'] == 'same' else 'w-' + name))
        res = process(d, 'job' if d['dir'] == 'same' else name, shared)
        report['docs'].append({'status': res['status'], 'detail': res.get('detail', '')[-600:]})
        if res['status'] != 'ok':
            return report
        diffs = check_state(name)
        if diffs:
            report['state'].append((name, diffs[:6]))
            return report
    Clock.now = float(EPOCH + total)
    os.chdir(workdir(base, 'w'))
    report['b'] = process(plan['b'], 'job', shared)
    if report['b']['status'] == 'ok':
        diffs = check_state('b')
        if diffs:
            report['state'].append(('b', diffs[:6]))
    return report


def first_diff(a, b):
    al, bl = a.splitlines(), b.splitlines()
    for i in range(max(len(al), len(bl))):
        x = al[i] if i < len(al) else '<end>'
        y = bl[i] if i < len(bl) else '<end>'
        if x != y:
            j = 0
            while j < min(len(x), len(y)) and x[j] == y[j]:
                j += 1
            s = max(0, j - 60)
            return 'line %d: alone %r, after others %r' % (i + 1, x[s:j + 100], y[s:j + 100])
    return 'equal'


def execute(plan, sim):
    prepare('quick')
    base = sim.scratch
    a = in_child(lambda: interpreter(plan, base, False), 60)
    sim.check(a[0] != 'hang', 'hang', 'B alone')
    if a[0] == 'err':
        raise RuntimeError('harness: %s' % a[1])
    h = in_child(lambda: interpreter(plan, base, True), 60 + 20 * len(plan['docs']))
    sim.check(h[0] != 'hang', 'hang', 'history')
    if h[0] == 'err':
        raise RuntimeError('harness: %s' % h[1])
    alone, hist = a[1], h[1]
    sim.simtime += hist['jump']
    for d, r in zip(plan['docs'], hist['docs']):
        sim.ev('doc', d['cls'], d['sn'], d['end'], d['renderer'], r['status'])
        sim.probe('doc:' + r['status'])
        if r['status'] != 'ok' and os.environ.get('VERIF_DEBUG'):
            print(r['detail'])
        if d['end']:
            sim.fault('input ends inside construct')
        if d['t']:
            sim.fault('clock jump')
        if d['dir'] == 'same':
            sim.fault('working directory reused')
    if alone.get('state'):
        sim.check(False, 'state', 'after one document: %s' % (alone['state'],), sig=alone['state'][0][1][0][0])
    if hist['state']:
        name, diffs = hist['state'][0]
        raise Violation('state', 'after %s: %s' % (name, '; '.join('%s was %s, is %s' % (k, str(x)[:200], str(y)[:200])
                                                                    for k, x, y in diffs)), sig=diffs[0][0])
    if any(r['status'] != 'ok' for r in hist['docs']):
        sim.ev('history not completed')
        return
    b, hb = alone['b'], hist['b']
    sim.ev('b', b['status'], len(b['files']))
    sim.probe('B ' + b['status'])
    if b['status'] == 'ok':
        sim.probe('renderer %s' % plan['b']['renderer'])
        if hist['docs']:
            sim.nontrivial = True
    sim.state([sorted(set(s for d in plan['docs'] for s in d['sn'] + [d['end']])), sorted(plan['b']['sn']),
               [d['renderer'] for d in plan['docs']], plan['b']['renderer']])
    sim.check(b['status'] == hb['status'], 'status', lambda: 'B alone: %s; after others: %s %s %s' % (
        b['status'], hb['status'], hb.get('detail', '')[-800:], b.get('detail', '')[-500:]))
    sim.check(b['xml'] == hb['xml'], 'tree', lambda: first_diff(b['xml'], hb['xml']))
    sim.check(sorted(b['files']) == sorted(hb['files']), 'filenames', lambda: '%s / %s' % (
        sorted(b['files']), sorted(hb['files'])))
    for k in sorted(b['files']):
        sim.check(b['files'][k] == hb['files'][k], 'tree' if k.endswith('.xml') else 'rendered',
                  lambda: '%s: %s' % (k, first_diff(b['files'][k], hb['files'][k])))
