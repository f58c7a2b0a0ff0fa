// Package wire runs the real decoders, encoders, frame readers and buffers on given cases and records what they do.
package wire

import (
	"encoding/json"
	"fmt"

	"github.com/hired/gevulot/pkg/pg"
	"github.com/lib/pq/oid"
)

// Bytes are lists of numbers in JSON.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	x := make([]int, len(b))
	for i, c := range b {
		x[i] = int(c)
	}
	return json.Marshal(x)
}

func (b *Bytes) UnmarshalJSON(d []byte) error {
	var x []int
	if err := json.Unmarshal(d, &x); err != nil {
		return err
	}
	*b = make(Bytes, len(x))
	for i, n := range x {
		(*b)[i] = byte(n)
	}
	return nil
}

type m = map[string]any

var none = m{"z": 0}

// V holds the fields of any message, as the specification names them.
type V struct {
	Code int32 `json:"code"`
	Data Bytes `json:"data"`
	Pid  int32 `json:"pid"`
	Key  int32 `json:"key"`
	S    Bytes `json:"s"`
	Vals []struct {
		Null bool  `json:"null"`
		B    Bytes `json:"b"`
	} `json:"vals"`
	Fields []struct {
		T    byte  `json:"t"`
		V    Bytes `json:"v"`
		Name Bytes `json:"name"`
		Toid int32 `json:"toid"`
		Col  int16 `json:"col"`
		Doid int32 `json:"doid"`
		Dsz  int16 `json:"dsz"`
		Dmod int32 `json:"dmod"`
		Fmt  int16 `json:"fmt"`
	} `json:"fields"`
	Ver  int32   `json:"ver"`
	Opts []Bytes `json:"opts"`
	N    Bytes   `json:"n"`
	Vv   Bytes   `json:"v"`
	B    byte    `json:"b"`
	Ps   []Pair  `json:"ps"`
}

type Pair struct {
	N Bytes `json:"n"`
	V Bytes `json:"v"`
}

// build makes the real message with the given fields.
func build(kind string, v *V) pg.Message {
	switch kind {
	case "Auth":
		switch v.Code {
		case 0:
			return &pg.AuthenticationOkMessage{}
		case 2:
			return &pg.AuthenticationKerberosV5Message{}
		case 3:
			return &pg.AuthenticationCleartextPasswordMessage{}
		case 5:
			x := &pg.AuthenticationMD5PasswordMessage{}
			copy(x.Salt[:], v.Data)
			return x
		case 6:
			return &pg.AuthenticationSCMCredentialMessage{}
		case 7:
			return &pg.AuthenticationGSSMessage{}
		case 8:
			return &pg.AuthenticationGSSContinueMessage{Data: v.Data}
		case 9:
			return &pg.AuthenticationSSPIMessage{}
		}
	case "BackendKeyData":
		return &pg.BackendKeyDataMessage{ProcessID: v.Pid, Key: v.Key}
	case "CommandComplete":
		return &pg.CommandCompleteMessage{Tag: string(v.S)}
	case "Password":
		return &pg.PasswordMessage{Password: string(v.S)}
	case "Query":
		return &pg.QueryMessage{Query: string(v.S)}
	case "DataRow":
		x := &pg.DataRowMessage{}
		for _, f := range v.Vals {
			if f.Null {
				x.Values = append(x.Values, nil)
			} else {
				x.Values = append(x.Values, append([]byte{}, f.B...))
			}
		}
		return x
	case "EmptyQuery":
		return &pg.EmptyQueryResponseMessage{}
	case "Terminate":
		return &pg.TerminateMessage{}
	case "ErrorResponse", "NoticeResponse":
		var fs []*pg.MessageField
		for _, f := range v.Fields {
			fs = append(fs, &pg.MessageField{Type: pg.MessageFieldType(f.T), Value: string(f.V)})
		}
		if kind == "ErrorResponse" {
			return &pg.ErrorResponseMessage{Fields: fs}
		}
		return &pg.NoticeResponseMessage{Fields: fs}
	case "NegotiateVersion":
		x := &pg.NegotiateProtocolVersionMessage{SupportedProtocolVersion: v.Ver}
		for _, o := range v.Opts {
			x.UnrecognizedOptions = append(x.UnrecognizedOptions, string(o))
		}
		return x
	case "ParameterStatus":
		return &pg.ParameterStatusMessage{Name: string(v.N), Value: string(v.Vv)}
	case "ReadyForQuery":
		return &pg.ReadyForQueryMessage{TxStatus: pg.TxStatus(v.B)}
	case "RowDescription":
		x := &pg.RowDescriptionMessage{}
		for _, f := range v.Fields {
			x.Fields = append(x.Fields, &pg.FieldDescriptor{Name: string(f.Name), TableOID: oid.Oid(f.Toid), ColumnIndex: f.Col,
				DataTypeOID: oid.Oid(f.Doid), DataTypeSize: f.Dsz, DataTypeModifier: f.Dmod, Format: pg.DataFormat(f.Fmt)})
		}
		return x
	case "Startup":
		return startup(v.Ver, v.Ps)
	}
	panic("harness: kind " + kind)
}

func startup(ver int32, ps []Pair) *pg.StartupMessage {
	x := &pg.StartupMessage{ProtocolVersion: ver}
	for _, p := range ps {
		x.Parameters = append(x.Parameters, &pg.StartupMessageParameter{Name: string(p.N), Value: string(p.V)})
	}
	return x
}

// fields is the inverse: the fields of a real message and its kind.
func fields(msg pg.Message) (string, m) {
	codes := func(fs []*pg.MessageField) m {
		l := []m{}
		for _, f := range fs {
			l = append(l, m{"t": int(f.Type), "v": Bytes(f.Value)})
		}
		return m{"fields": l}
	}
	auth := func(c int, d []byte) (string, m) { return "Auth", m{"code": c, "data": Bytes(d)} }
	switch x := msg.(type) {
	case *pg.AuthenticationOkMessage:
		return auth(0, nil)
	case *pg.AuthenticationKerberosV5Message:
		return auth(2, nil)
	case *pg.AuthenticationCleartextPasswordMessage:
		return auth(3, nil)
	case *pg.AuthenticationMD5PasswordMessage:
		return auth(5, x.Salt[:])
	case *pg.AuthenticationSCMCredentialMessage:
		return auth(6, nil)
	case *pg.AuthenticationGSSMessage:
		return auth(7, nil)
	case *pg.AuthenticationGSSContinueMessage:
		return auth(8, x.Data)
	case *pg.AuthenticationSSPIMessage:
		return auth(9, nil)
	case *pg.BackendKeyDataMessage:
		return "BackendKeyData", m{"pid": x.ProcessID, "key": x.Key}
	case *pg.CommandCompleteMessage:
		return "CommandComplete", m{"s": Bytes(x.Tag)}
	case *pg.PasswordMessage:
		return "Password", m{"s": Bytes(x.Password)}
	case *pg.QueryMessage:
		return "Query", m{"s": Bytes(x.Query)}
	case *pg.DataRowMessage:
		l := []m{}
		for _, v := range x.Values {
			l = append(l, m{"null": v == nil, "b": Bytes(v)})
		}
		return "DataRow", m{"vals": l}
	case *pg.EmptyQueryResponseMessage:
		return "EmptyQuery", none
	case *pg.TerminateMessage:
		return "Terminate", none
	case *pg.ErrorResponseMessage:
		return "ErrorResponse", codes(x.Fields)
	case *pg.NoticeResponseMessage:
		return "NoticeResponse", codes(x.Fields)
	case *pg.NegotiateProtocolVersionMessage:
		l := []Bytes{}
		for _, o := range x.UnrecognizedOptions {
			l = append(l, Bytes(o))
		}
		return "NegotiateVersion", m{"ver": x.SupportedProtocolVersion, "opts": l}
	case *pg.ParameterStatusMessage:
		return "ParameterStatus", m{"n": Bytes(x.Name), "v": Bytes(x.Value)}
	case *pg.ReadyForQueryMessage:
		return "ReadyForQuery", m{"b": int(x.TxStatus)}
	case *pg.RowDescriptionMessage:
		l := []m{}
		for _, f := range x.Fields {
			l = append(l, m{"name": Bytes(f.Name), "toid": int32(f.TableOID), "col": f.ColumnIndex, "doid": int32(f.DataTypeOID),
				"dsz": f.DataTypeSize, "dmod": f.DataTypeModifier, "fmt": f.Format})
		}
		return "RowDescription", m{"fields": l}
	case *pg.StartupMessage:
		l := []m{}
		for _, p := range x.Parameters {
			l = append(l, m{"n": Bytes(p.Name), "v": Bytes(p.Value)})
		}
		return "Startup", m{"ver": x.ProtocolVersion, "ps": l}
	case *pg.GenericMessage:
		return "Generic", none
	}
	return fmt.Sprintf("%T", msg), none
}

// parse runs the real decoder of kind.
func parse(kind string, f pg.Frame) (pg.Message, error) {
	switch kind {
	case "Auth":
		return pg.ParseAuthenticationRequestMessage(f)
	case "BackendKeyData":
		return pg.ParseBackendKeyDataMessage(f)
	case "CommandComplete":
		return pg.ParseCommandCompleteMessage(f)
	case "Password":
		return pg.ParsePasswordMessage(f)
	case "Query":
		return pg.ParseQueryMessage(f)
	case "DataRow":
		return pg.ParseDataRowMessage(f)
	case "EmptyQuery":
		return pg.ParseEmptyQueryResponseMessage(f)
	case "Terminate":
		return pg.ParseTerminateMessage(f)
	case "ErrorResponse":
		return pg.ParseErrorResponseMessage(f)
	case "NoticeResponse":
		return pg.ParseNoticeResponseMessage(f)
	case "NegotiateVersion":
		return pg.ParseNegotiateProtocolVersionMessage(f)
	case "ParameterStatus":
		return pg.ParseParameterStatusMessage(f)
	case "ReadyForQuery":
		return pg.ParseReadyForQueryMessage(f)
	case "RowDescription":
		return pg.ParseRowDescriptionMessage(f)
	case "Startup":
		return pg.ParseStartupMessage(f)
	}
	panic("harness: kind " + kind)
}
