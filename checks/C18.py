import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C17

C17.FORMATS = C17.wc.draw_lex.BINARY
C17.main("C18", C17.run)
