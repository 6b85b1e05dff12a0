r"""Ways to have text within other things.

§ is a piece of marked text, ¶ an end of line.  The first word names the package to load
('-': none; '5': only HTML5 keeps it as text).
"""


def table(s):
    return [x.replace('¶', '\n').split(' ', 1) for x in s.strip().split('\n')]


INLINE = table(r"""
- {\em §}
- \textsl{§}
- \textsc{§}
- \texttt{§}
- {\bf §}
- {\footnotesize §}
- {\mdseries §}
- \textbf{\emph{§} x}
- \makebox[2cm][l]{§}
- \fbox{§}
- \framebox[2cm]{§}
- \parbox[t]{3cm}{§}
5 \raisebox{2pt}{§}
- \underline{§}
- \textsuperscript{§}
- \llap{§}
- \centerline{§}
- \hbox{§}
- \vbox{§}
- \hbox to 3cm{§}
- \begingroup §\endgroup
- ``§''
- \hspace{1cm}§
- \hfill § \hfill
- §\newline
- §\\[2pt]
- \protect\emph{§}
- \mycmd{§}
- \myopt{§}
- \myopt[§]{x}
- \ifx a a§\else x\fi
- \begin{em}§\end{em}
- \mydef{§}{y}
- {\let\emph\textbf \emph{§}}
- \expandafter\emph\expandafter{§}
- \footnotesize § \normalsize
- \verb*|§|
- \ensuremath{x}§
- \(x\)§
- \(a\mbox{b}\) §
- \uppercase{a}§
- \begin{tabular}{@{}l@{}}§\end{tabular}
amsmath \text{§}
hyperref \hypertarget{ht}{§}
hyperref \texorpdfstring{§}{x}
hyperref \nolinkurl{§}
hyperref \phantomsection §
color \textcolor[rgb]{1,0,0}{§}
color {\color{red}§}
color \colorbox{red}{§}
color \fcolorbox{red}{blue}{§}
graphicx \rotatebox{90}{§}
graphicx \scalebox{2}{§}
fancybox \shadowbox{§}
fancybox \ovalbox{§}
listings \lstinline|§|
babel \foreignlanguage{french}{§}
ifthen \ifthenelse{1=2}{x}{§}
ifthen \ifthenelse{\equal{a}{a}}{§}{x}
todonotes §\todo{x}
marginnote §\marginnote{x}
url \path{§}
""")
BLOCK = table(r"""
- {\centering §\par}
- \begin{flushleft}§\end{flushleft}
- {\raggedright §\par}
- \begin{minipage}[t]{3cm}§\end{minipage}
- \begin{itemize}\item[§] x\item §\end{itemize}
- \begin{enumerate}\item[§] x\item § \end{enumerate}
- \begin{description}\item[§] §\item[x §]§ y\end{description}
- \begin{description}\item §\end{description}
- \begin{list}{}{}\item §\item[§] §\end{list}
- \begin{trivlist}\item §\end{trivlist}
- \begin{list}{-}{\leftmargin 2pt}\item §\end{list}
- \begin{tabular}{ll}\multicolumn{2}{c}{§}\\ §&§\end{tabular}
- \begin{tabular*}{3cm}{ll}§&§\\ y&§\end{tabular*}
- \begin{tabular}{p{3cm}|l@{x}l}§&§ \\ § & §\\ \hline\end{tabular}
- \begin{tabular}{|l|}\hline § \\ \cline{1-1} § \\ \end{tabular}
- \begin{tabular}{l}\begin{tabular}{l}§\\§\end{tabular}\\ §\end{tabular}
- \begin{table}\begin{tabular}{l}§\\§\end{tabular}\caption[s]{§}\end{table}
- \begin{figure}[tb]\centering §\caption{§}\end{figure}
- \begin{verbatim*}§ \x\end{verbatim*}
- \begin{sloppypar}§\end{sloppypar}
- \begin{titlepage}§\end{titlepage}
- \begin{thm}[§]§\end{thm}
- \begin{myenv}§\end{myenv}
- \begin{myenv}\begin{itemize}\item §\end{itemize}\end{myenv}
- \begin{em}§\end{em}
- \begin{small}§¶¶§\end{small}
- \begin{samepage}§\end{samepage}
- \twocolumn[§]
- \newpage § \clearpage §
- \begin{eqnarray*}x&=&y\end{eqnarray*}§
- \begin{displaymath}x\end{displaymath}§
- \bigskip\noindent §
- \begin{itemize}\item §\begin{enumerate}\item §¶¶§\item §\end{enumerate}\item §\end{itemize}
- \newcommand{\later}[1]{(#1)}\renewcommand{\later}[1]{[#1]}\later{§}
- \begin{quote}\begin{center}§\end{center}§\end{quote}
- \begin{verse}§\\§\\§¶¶§\end{verse}
amsthm \begin{proof}[§]§\end{proof}
amsthm \begin{thm}§\begin{proof}§\qedhere\end{proof}§\end{thm}
multicol \begin{multicols}{2}[§]§ \columnbreak §\end{multicols}
longtable \begin{longtable}{l}§\\§\end{longtable}
longtable \begin{longtable}{ll}§&§\endhead y&§\\§&x\end{longtable}
longtable \begin{longtable}{l}\caption{§}\\ §\\§\end{longtable}
tabularx \begin{tabularx}{3cm}{lX}§&§\\x&§\end{tabularx}
booktabs \begin{tabular}{l}\toprule §\\ \midrule §\\ \bottomrule\end{tabular}
subfig \begin{figure}\subfloat[§]{x}\subfloat[x]{§}\caption{§}\end{figure}
wrapfig \begin{wrapfigure}{r}{3cm}§\end{wrapfigure}
float \begin{figure}[H]§\end{figure}
fancyvrb \begin{Verbatim}§\end{Verbatim}
alltt \begin{alltt}§ \emph{§}\end{alltt}
listings \begin{lstlisting}¶§¶ §¶\end{lstlisting}
enumerate \begin{enumerate}[a)]\item §\item §\end{enumerate}
setspace \begin{spacing}{2}§\end{spacing}
babel \begin{otherlanguage}{french}§\end{otherlanguage}
verbatim \begin{comment}x\end{comment}§
""")
NOTES = [x.replace('¶', '\n') for x in r"""
\footnote[3]{§}
\footnote{a \emph{§}}
\emph{a\footnote{§}}
\footnote{a¶¶§}
\footnote{\begin{itemize}\item §\end{itemize}}
\mbox{\footnote{§}}
\textbf{\textit{\footnote{§ $x$}}}
{\small\footnote{§}}
\footnotemark[2]\footnotetext[2]{§}
\mycmd{\footnote{§}}
\footnote{\begin{tabular}{l}§\end{tabular}}
\begin{quote}\footnote{§}\end{quote}
\begin{tabular}{l}x\footnote{§}\end{tabular}
\parbox{3cm}{x\footnote{§}}
""".strip().split('\n')]
PKGS = sorted({x[0] for x in INLINE + BLOCK} - {'-', '5', 'amsmath', 'amsthm', 'hyperref'})
