package zembed

import "io"

var eof = io.EOF
