"""Element names htmltools exports a function for, and the inline classification."""
HTML_FNS = """
html base head link meta style title body address article aside footer header h1 h2 h3 h4
h5 h6 main nav section blockquote dd div dl dt figcaption figure hr li menu ol p pre ul a
abbr b bdi bdo br cite code data dfn em i kbd mark q rp rt ruby s samp small span strong
sub sup time u var wbr area audio img map track video embed iframe object param picture
portal source svg math canvas noscript script ins caption col colgroup table tbody td
tfoot th thead tr button datalist fieldset form input label legend meter optgroup option
output progress select textarea details dialog summary slot template
""".split()
SVG_FNS = """
a animate animateMotion animateTransform circle clipPath defs desc discard ellipse feBlend
feColorMatrix feComponentTransfer feComposite feConvolveMatrix feDiffuseLighting
feDisplacementMap feDistantLight feDropShadow feFlood feFuncA feFuncB feFuncG feFuncR
feGaussianBlur feImage feMerge feMergeNode feMorphology feOffset fePointLight
feSpecularLighting feSpotLight feTile feTurbulence filter foreignObject g hatch hatchpath
image line linearGradient marker mask metadata mpath path pattern polygon polyline
radialGradient rect script set stop style svg switch symbol text textPath title tspan use
view
""".split()
INLINE = """
a abbr acronym audio b bdi bdo big br button canvas cite code data datalist del dfn em
embed i iframe img input ins kbd label map mark meter noscript object output picture pre
progress q ruby s samp select slot small span strong sub sup svg template textarea time tt
u var video wbr
""".split()
TOP = "a br code div em h1 h2 h3 h4 h5 h6 hr img p pre span strong".split()
ELEMENTS = sorted(set(HTML_FNS) | set(SVG_FNS) | set(INLINE) | {"marquee", "font", "center", "frame", "frameset", "dir",
                  "rb", "rtc", "command", "keygen", "menuitem", "nobr", "listing", "image", "my-element", "x-foo"})
ATTRS = """
abbr accept accept-charset accesskey action allow allowfullscreen alt aria-controls aria-current aria-describedby
aria-expanded aria-hidden aria-label aria-live as async autocapitalize autocomplete autofocus autoplay blocking bind
charset checked cite class clip-path color cols colspan content contenteditable controls coords crossorigin data
data-bs-toggle data-bs-target data-foo data-id data-value data-x datetime decoding default defer dir dirname disabled
download draggable enctype enterkeyhint fill fill-rule font-family for form formaction formenctype formmethod
formnovalidate formtarget headers height hidden high href hreflang html http-equiv id imagesizes imagesrcset inert
inputmode integrity is ismap itemid itemprop itemref itemscope itemtype key kind label lang list loading loop low max
maxlength media method min minlength multiple muted name nomodule nonce novalidate onblur onchange onclick onfocus
oninput onkeydown onload onmouseover onsubmit open optimum pattern ping placeholder playsinline popover poster
preserveAspectRatio preload readonly referrerpolicy rel required reversed role rows rowspan sandbox scope selected
shape size sizes slot span spellcheck src srcdoc srclang srcset start step stroke stroke-width style tabindex target
text text-anchor title transform translate type usemap value viewBox width wrap xlink:href xml:lang xmlns
""".split()
