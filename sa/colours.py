"""Colours that matplotlib accepts (names of the CSS4 and Tableau tables and
the numeric forms)."""
import re

CSS4 = set('''
aliceblue antiquewhite aqua aquamarine azure beige bisque black
blanchedalmond blue blueviolet brown burlywood cadetblue chartreuse
chocolate coral cornflowerblue cornsilk crimson cyan darkblue darkcyan
darkgoldenrod darkgray darkgreen darkgrey darkkhaki darkmagenta
darkolivegreen darkorange darkorchid darkred darksalmon darkseagreen
darkslateblue darkslategray darkslategrey darkturquoise darkviolet
deeppink deepskyblue dimgray dimgrey dodgerblue firebrick floralwhite
forestgreen fuchsia gainsboro ghostwhite gold goldenrod gray green
greenyellow grey honeydew hotpink indianred indigo ivory khaki lavender
lavenderblush lawngreen lemonchiffon lightblue lightcoral lightcyan
lightgoldenrodyellow lightgray lightgreen lightgrey lightpink lightsalmon
lightseagreen lightskyblue lightslategray lightslategrey lightsteelblue
lightyellow lime limegreen linen magenta maroon mediumaquamarine
mediumblue mediumorchid mediumpurple mediumseagreen mediumslateblue
mediumspringgreen mediumturquoise mediumvioletred midnightblue mintcream
mistyrose moccasin navajowhite navy oldlace olive olivedrab orange
orangered orchid palegoldenrod palegreen paleturquoise palevioletred
papayawhip peachpuff peru pink plum powderblue purple rebeccapurple red
rosybrown royalblue saddlebrown salmon sandybrown seagreen seashell sienna
silver skyblue slateblue slategray slategrey snow springgreen steelblue
tan teal thistle tomato turquoise violet wheat white whitesmoke yellow
yellowgreen
'''.split())
TAB = {'blue', 'orange', 'green', 'red', 'purple', 'brown', 'pink', 'gray',
       'grey', 'olive', 'cyan'}
HEX = re.compile(r'#(?:[0-9a-fA-F]{3,4}|[0-9a-fA-F]{6}|[0-9a-fA-F]{8})\Z')


def valid(c):
    """True, False, or None where the table does not decide"""
    if not isinstance(c, str):
        return None
    if c.startswith('xkcd:'):
        return None
    if c.startswith('tab:'):
        return c[4:] in TAB
    if c.startswith('#'):
        return bool(HEX.match(c))
    if c.lower() in CSS4 or c in 'bgrcmykw' and len(c) == 1 or \
            c.lower() == 'none' or re.match(r'C[0-9]+\Z', c):
        return True
    try:
        return 0.0 <= float(c) <= 1.0
    except ValueError:
        return False
