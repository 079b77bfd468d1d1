// Package dec names the decoding entry points of the library.
package dec

import (
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
)

const (
	BVLC = iota
	NPDU
	APDU
	ReadProperty
	ReadPropertyMultipleAck
	WhoIs
	IAm
	AppData
	N
)

var Names = []string{"BVLC", "NPDU", "APDU", "ReadProperty", "ReadMultiplePropertyAck", "WhoIs", "IAm", "AppData"}

// Run decodes b with one entry point and returns the decoder and its error.
func Run(entry int, b []byte) (*encoding.Decoder, error) {
	d := encoding.NewDecoder(b)
	var err error
	switch entry {
	case BVLC:
		var x btypes.BVLC
		err = d.BVLC(&x)
	case NPDU:
		var x btypes.NPDU
		_, err = d.NPDU(&x)
	case APDU:
		var x btypes.APDU
		err = d.APDU(&x)
	case ReadProperty:
		var x btypes.PropertyData
		err = d.ReadProperty(&x)
	case ReadPropertyMultipleAck:
		var x btypes.MultiplePropertyData
		err = d.ReadMultiplePropertyAck(&x)
	case WhoIs:
		var lo, hi int32
		err = d.WhoIs(&lo, &hi)
	case IAm:
		var x btypes.IAm
		err = d.IAm(&x)
	case AppData:
		_, err = d.AppData()
	}
	if err == nil {
		err = d.Error()
	}
	return d, err
}
