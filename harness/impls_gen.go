package main

// Code generated by tools/genimpls.py. DO NOT EDIT.

import (
	"net/http"

	nm "github.com/shohruhadham/nanomux"
)

type mx_vGet struct{ id string }

func (i mx_vGet) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "GET")
}

type mx_vPost struct{ id string }

func (i mx_vPost) HandlePost(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "POST")
}

type mx_vPut struct{ id string }

func (i mx_vPut) HandlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "PUT")
}

type mx_vDelete struct{ id string }

func (i mx_vDelete) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "DELETE")
}

type mx_vHead struct{ id string }

func (i mx_vHead) HandleHead(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "HEAD")
}

type mx_vPatch struct{ id string }

func (i mx_vPatch) HandlePatch(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "PATCH")
}

type mx_vOptions struct{ id string }

func (i mx_vOptions) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "OPTIONS")
}

type mx_vConnect struct{ id string }

func (i mx_vConnect) HandleConnect(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "CONNECT")
}

type mx_vTrace struct{ id string }

func (i mx_vTrace) HandleTrace(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "TRACE")
}

type mx_vCustom struct{ id string }

func (i mx_vCustom) HandleCustom(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "CUSTOM")
}

type mx_vLock struct{ id string }

func (i mx_vLock) HandleLock(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "LOCK")
}

type mx_vX struct{ id string }

func (i mx_vX) HandleX(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "X")
}

type mx_vgetMoved struct{ id string }

func (i mx_vgetMoved) HandlegetMoved(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "GETMOVED")
}

type mx_pGet struct{ id string }

func (i *mx_pGet) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "GET")
}

type mx_pPost struct{ id string }

func (i *mx_pPost) HandlePost(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "POST")
}

type mx_pShare struct{ id string }

func (i *mx_pShare) HandleShare(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "SHARE")
}

type mx_pCustom struct{ id string }

func (i *mx_pCustom) HandleCustom(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "CUSTOM")
}

type mx_pOptions struct{ id string }

func (i *mx_pOptions) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "OPTIONS")
}

type mx_pY struct{ id string }

func (i *mx_pY) HandleY(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "Y")
}

type mx_vNA struct{ id string }

func (i mx_vNA) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "!")
}

type mx_pNA struct{ id string }

func (i *mx_pNA) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "!")
}

type mx_b0 struct{ id string }

func (i mx_b0) HandleGet() { implBad(i.id) }

type mx_b1 struct{ id string }

func (i *mx_b1) HandlePut(w http.ResponseWriter, r *http.Request) { implBad(i.id) }

type mx_b2 struct{ id string }

func (i mx_b2) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) { implBad(i.id) }

type mx_b3 struct{ id string }

func (i *mx_b3) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	implBad(i.id)
	return true
}

type mx_b4 struct{ id string }

func (i mx_b4) HandleCustom(w http.ResponseWriter, r *http.Request, a *nm.Args, x ...int) bool {
	implBad(i.id)
	return true
}

type mx_b5 struct{ id string }

func (i *mx_b5) HandleCopy(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	implBad(i.id)
	return true, nil
}

type mx_b6 struct{ id string }

func (i mx_b6) HandleLink(w *http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	implBad(i.id)
	return true
}

type mx_b7 struct{ id string }

func (i *mx_b7) HandlePost(a *nm.Args, w http.ResponseWriter, r *http.Request) bool {
	implBad(i.id)
	return true
}

type mx_xMethod struct{ id string }

func (i *mx_xMethod) HandleMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "METHOD")
}

type mx_xHandle struct{ id string }

func (i *mx_xHandle) HandleHandle(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "HANDLE")
}

type mx_xAllowedMethod struct{ id string }

func (i mx_xAllowedMethod) HandleAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "ALLOWEDMETHOD")
}

type mx_xNotAllowed struct{ id string }

func (i mx_xNotAllowed) HandleNotAllowed(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "NOTALLOWED")
}

type mx_xMethodNotAllowed struct{ id string }

func (i mx_xMethodNotAllowed) HandleMethodNotAllowed(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "METHODNOTALLOWED")
}

type mx_xGetMethod struct{ id string }

func (i *mx_xGetMethod) HandleGetMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "GETMETHOD")
}

type mx_xNot struct{ id string }

func (i *mx_xNot) HandleNot(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "NOT")
}

type mx_xAll struct{ id string }

func (i *mx_xAll) HandleAll(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "ALL")
}

type mx_xHttp struct{ id string }

func (i mx_xHttp) HandleHttp(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "HTTP")
}

type mx_xRequest struct{ id string }

func (i mx_xRequest) HandleRequest(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "REQUEST")
}

type mx_xGe struct{ id string }

func (i mx_xGe) HandleGe(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "GE")
}

type mx_xM1 struct{ id string }

func (i mx_xM1) HandleM1(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "M1")
}

type mx_xNotAllowedMethods struct{ id string }

func (i mx_xNotAllowedMethods) HandleNotAllowedMethods(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "NOTALLOWEDMETHODS")
}

type mx_n0 struct{ id string }

func (i mx_n0) Get(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "never")
}

type mx_n1 struct{ id string }

func (i mx_n1) PreHandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "never")
}

type mx_n2 struct{ id string }

func (i mx_n2) handlePost(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "never")
}

type mx_n3 struct{ id string }

func (i mx_n3) ServeGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "never")
}

type mx_n4 struct{ id string }

func (i mx_n4) NotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "never")
}

type mx_n5 struct{ id string }

func (i mx_n5) HANDLEPUT(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "never")
}

type mx_n6 struct{ id string }

func (i mx_n6) Hand(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "never")
}

type mx_vAcl struct{ id string }

func (i mx_vAcl) HandleAcl(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "ACL")
}

type mx_vBind struct{ id string }

func (i mx_vBind) HandleBind(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "BIND")
}

type mx_vCheckin struct{ id string }

func (i mx_vCheckin) HandleCheckin(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "CHECKIN")
}

type mx_vCheckout struct{ id string }

func (i mx_vCheckout) HandleCheckout(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "CHECKOUT")
}

type mx_vCopy struct{ id string }

func (i mx_vCopy) HandleCopy(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "COPY")
}

type mx_vLabel struct{ id string }

func (i mx_vLabel) HandleLabel(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "LABEL")
}

type mx_vLink struct{ id string }

func (i mx_vLink) HandleLink(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "LINK")
}

type mx_vMerge struct{ id string }

func (i mx_vMerge) HandleMerge(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "MERGE")
}

type mx_vMkcol struct{ id string }

func (i mx_vMkcol) HandleMkcol(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "MKCOL")
}

type mx_vMove struct{ id string }

func (i mx_vMove) HandleMove(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "MOVE")
}

type mx_vNotify struct{ id string }

func (i mx_vNotify) HandleNotify(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "NOTIFY")
}

type mx_vOrderpatch struct{ id string }

func (i mx_vOrderpatch) HandleOrderpatch(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "ORDERPATCH")
}

type mx_vPropfind struct{ id string }

func (i mx_vPropfind) HandlePropfind(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "PROPFIND")
}

type mx_vPurge struct{ id string }

func (i mx_vPurge) HandlePurge(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "PURGE")
}

type mx_vRebind struct{ id string }

func (i mx_vRebind) HandleRebind(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "REBIND")
}

type mx_vReport struct{ id string }

func (i mx_vReport) HandleReport(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "REPORT")
}

type mx_vSearch struct{ id string }

func (i mx_vSearch) HandleSearch(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "SEARCH")
}

type mx_vUnlink struct{ id string }

func (i mx_vUnlink) HandleUnlink(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "UNLINK")
}

type mx_vUnlock struct{ id string }

func (i mx_vUnlock) HandleUnlock(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implBody(w, r, a, i.id, "UNLOCK")
}

type impl00 struct {
	n int
}

type impl01 struct {
	mx_vNA
	n int
}

type impl02 struct {
	mx_pNA
	n int
}

type impl03 struct {
	mx_vOptions
	n int
}

type impl04 struct {
	mx_b0
	n int
}

type impl05 struct {
	mx_n1
	mx_n2
	n int
}

type impl06 struct {
	mx_xMethod
	n int
}

type impl07 struct {
	mx_xHandle
	mx_pCustom
	mx_xHttp
	mx_pShare
	n int
}

type impl08 struct {
	mx_pNA
	mx_vgetMoved
	mx_b6
	mx_xGetMethod
	n int
}

type impl09 struct {
	mx_vHead
	mx_b1
	mx_b5
	mx_pY
	n int
}

type impl10 struct {
	mx_xNotAllowed
	mx_b0
	mx_vDelete
	mx_vTrace
	mx_xNotAllowedMethods
	mx_xHttp
	mx_pCustom
	mx_n3
	n int
}

type impl11 struct {
	mx_vNA
	mx_xHttp
	mx_n2
	mx_xNot
	mx_vHead
	mx_xNotAllowedMethods
	n int
}

type impl12 struct {
	mx_pCustom
	mx_vPut
	mx_b5
	n int
}

type impl13 struct {
	mx_xAll
	mx_pGet
	mx_xMethod
	mx_vDelete
	mx_xHttp
	mx_xHandle
	mx_pCustom
	mx_vNA
	n int
}

type impl14 struct {
	mx_vPatch
	mx_pOptions
	n int
}

type impl15 struct {
	mx_pPost
	mx_xM1
	n int
}

type impl16 struct {
	mx_vOptions
	mx_pCustom
	mx_pNA
	n int
}

type impl17 struct {
	mx_xRequest
	mx_b5
	mx_xHandle
	mx_n1
	n int
}

type impl18 struct {
	mx_vgetMoved
	mx_pNA
	mx_vPatch
	mx_b6
	mx_pPost
	mx_xGetMethod
	n int
}

type impl19 struct {
	mx_pOptions
	mx_n0
	n int
}

type impl20 struct {
	mx_b3
	mx_b5
	mx_xAllowedMethod
	mx_n6
	mx_vX
	mx_vCustom
	mx_vHead
	mx_b0
	n int
}

type impl21 struct {
	mx_xMethodNotAllowed
	mx_pCustom
	mx_vX
	mx_n1
	n int
}

type impl22 struct {
	mx_b3
	mx_xHttp
	n int
}

type impl23 struct {
	mx_vCustom
	mx_xGe
	mx_xMethod
	mx_n5
	mx_pNA
	mx_xAllowedMethod
	n int
}

type impl24 struct {
	mx_b2
	n int
}

type impl25 struct {
	mx_xNot
	mx_vgetMoved
	mx_vDelete
	mx_b4
	n int
}

type impl26 struct {
	mx_b0
	mx_b7
	mx_vNA
	n int
}

type impl27 struct {
	mx_xAllowedMethod
	mx_vTrace
	mx_vPut
	n int
}

type impl28 struct {
	mx_vPatch
	n int
}

type impl29 struct {
	mx_xMethod
	mx_xNot
	mx_xNotAllowedMethods
	mx_vPatch
	mx_pGet
	mx_xM1
	n int
}

type impl30 struct {
	mx_b2
	mx_xMethodNotAllowed
	mx_xNotAllowedMethods
	mx_b1
	mx_xGetMethod
	n int
}

type impl31 struct {
	mx_vCustom
	mx_xM1
	n int
}

type impl32 struct {
	mx_vPost
	mx_xAll
	mx_xAllowedMethod
	mx_vConnect
	n int
}

type impl33 struct {
	mx_pNA
	mx_xGetMethod
	mx_n5
	n int
}

type impl34 struct {
	mx_vgetMoved
	mx_xHandle
	mx_vPatch
	mx_vConnect
	mx_pPost
	mx_vCustom
	n int
}

type impl35 struct {
	mx_n0
	mx_n2
	mx_pY
	mx_xGetMethod
	n int
}

type impl36 struct {
	mx_xRequest
	mx_vOptions
	mx_xAll
	n int
}

type impl37 struct {
	mx_b2
	mx_n4
	mx_xRequest
	mx_pNA
	mx_vDelete
	mx_vCustom
	n int
}

type impl38 struct {
	mx_pPost
	mx_vOptions
	mx_vLock
	mx_n1
	mx_vConnect
	mx_vX
	n int
}

type impl39 struct {
	mx_xNot
	mx_pY
	mx_xHttp
	mx_xM1
	n int
}

type impl40 struct {
	mx_vLock
	n int
}

type impl41 struct {
	mx_xAll
	mx_xGe
	n int
}

type impl42 struct {
	mx_b4
	mx_xGe
	mx_n1
	n int
}

type impl43 struct {
	mx_xNot
	n int
}

type impl44 struct {
	mx_b2
	mx_b7
	mx_b1
	n int
}

type impl45 struct {
	mx_b5
	mx_vNA
	mx_xHttp
	mx_n1
	mx_xAll
	mx_pGet
	n int
}

type impl46 struct {
	mx_b7
	mx_xNotAllowedMethods
	mx_pOptions
	mx_xMethod
	mx_pNA
	n int
}

type impl47 struct {
	mx_pPost
	mx_xGetMethod
	mx_vPatch
	mx_b0
	mx_n0
	mx_vgetMoved
	mx_b6
	mx_n6
	n int
}

type impl48 struct {
	mx_b7
	n int
}

type impl49 struct {
	mx_pCustom
	mx_vNA
	mx_n1
	mx_vgetMoved
	mx_xRequest
	n int
}

type impl50 struct {
	mx_vPatch
	mx_xAllowedMethod
	mx_pNA
	n int
}

type impl51 struct {
	mx_xM1
	mx_xHttp
	mx_vX
	mx_vDelete
	mx_pY
	mx_b7
	n int
}

type impl52 struct {
	mx_xNot
	mx_vOptions
	mx_vLock
	n int
}

type impl53 struct {
	mx_vTrace
	n int
}

type impl54 struct {
	mx_xRequest
	mx_vDelete
	n int
}

type impl55 struct {
	mx_xHandle
	mx_xNot
	mx_pOptions
	n int
}

type impl56 struct {
	mx_vConnect
	n int
}

type impl57 struct {
	mx_xMethod
	mx_xNot
	mx_vTrace
	mx_xHandle
	mx_xGetMethod
	mx_xRequest
	mx_b5
	mx_xAllowedMethod
	n int
}

type impl58 struct {
	mx_vPut
	mx_xHttp
	mx_n6
	mx_xAllowedMethod
	mx_xM1
	mx_xNotAllowedMethods
	n int
}

type impl59 struct {
	mx_xM1
	mx_xNot
	n int
}

type impl60 struct {
	mx_vPost
	mx_b5
	mx_n4
	n int
}

type impl61 struct {
	mx_vX
	mx_pShare
	n int
}

type impl62 struct {
	mx_xMethodNotAllowed
	mx_xHttp
	mx_n1
	mx_b7
	mx_b1
	mx_vNA
	n int
}

type impl63 struct {
	mx_xHandle
	mx_xMethod
	mx_pCustom
	n int
}

type impl64 struct {
	mx_xRequest
	mx_pOptions
	mx_n4
	n int
}

type impl65 struct {
	mx_vPost
	mx_b6
	n int
}

type impl66 struct {
	mx_xHttp
	mx_xHandle
	mx_xM1
	mx_vLock
	n int
}

type impl67 struct {
	mx_n0
	mx_vgetMoved
	mx_vNA
	n int
}

type impl68 struct {
	mx_vCustom
	mx_xMethodNotAllowed
	mx_xHandle
	mx_vHead
	mx_pGet
	mx_n1
	n int
}

type impl69 struct {
	mx_xGetMethod
	mx_b0
	n int
}

type impl70 struct {
	mx_vCheckin
	mx_vNotify
	mx_vSearch
	mx_vMerge
	mx_vPurge
	mx_vCopy
	mx_vReport
	mx_vPropfind
	mx_vAcl
	mx_vMkcol
	mx_vBind
	mx_vUnlink
	mx_vNA
	mx_vOptions
	mx_pPost
	n int
}

type impl71 struct {
	mx_vSearch
	mx_vRebind
	mx_vNotify
	mx_vAcl
	mx_vOrderpatch
	mx_vMerge
	mx_vReport
	mx_vLink
	mx_vCheckin
	mx_vMove
	mx_vCopy
	mx_vLabel
	mx_vCheckout
	mx_vPurge
	mx_vX
	mx_vNA
	mx_vGet
	n int
}

type impl72 struct {
	mx_vLink
	mx_vMkcol
	mx_vCheckin
	mx_vBind
	mx_vMove
	mx_vLabel
	mx_vSearch
	mx_vAcl
	mx_vUnlink
	mx_vNotify
	mx_vOrderpatch
	mx_vRebind
	mx_vReport
	mx_vUnlock
	mx_vCheckout
	mx_vX
	mx_vPost
	mx_vNA
	n int
}

type impl73 struct {
	mx_vMkcol
	mx_vReport
	mx_vOrderpatch
	mx_vAcl
	mx_vCheckin
	mx_vMove
	mx_vBind
	mx_vLink
	mx_vPropfind
	mx_vSearch
	mx_vMerge
	mx_vNotify
	mx_vRebind
	mx_vPurge
	mx_vLabel
	mx_vCheckout
	mx_vX
	mx_vPost
	mx_vOptions
	n int
}

type impl74 struct {
	mx_vOrderpatch
	mx_vUnlock
	mx_vAcl
	mx_vCopy
	mx_vReport
	mx_vPurge
	mx_vLabel
	mx_vUnlink
	mx_vCheckin
	mx_vRebind
	mx_vMove
	mx_vLink
	mx_vSearch
	mx_vMerge
	mx_vPropfind
	mx_vNotify
	mx_vCheckout
	mx_vNA
	mx_vOptions
	mx_pPost
	n int
}

type impl75 struct {
	mx_vReport
	mx_vLink
	mx_vCopy
	mx_vRebind
	mx_vOrderpatch
	mx_vCheckin
	mx_vUnlock
	mx_vUnlink
	mx_vCheckout
	mx_vAcl
	mx_vBind
	mx_vNotify
	mx_vPurge
	mx_vMerge
	mx_vSearch
	mx_vMkcol
	mx_vLabel
	mx_vMove
	mx_vPropfind
	mx_vGet
	mx_vOptions
	mx_vPost
	n int
}

type impl76 struct {
	mx_vRebind
	mx_vMkcol
	mx_vReport
	mx_vUnlink
	mx_vCheckout
	mx_vOrderpatch
	mx_vMerge
	mx_vMove
	mx_vAcl
	mx_vUnlock
	mx_vCopy
	mx_vBind
	mx_vPropfind
	mx_vLabel
	mx_vLink
	mx_vSearch
	mx_vCheckin
	mx_vNotify
	mx_vPurge
	mx_pPost
	mx_n1
	mx_vGet
	n int
}

type impl77 struct {
	mx_vGet
	mx_vPost
	mx_vPut
	mx_vDelete
	mx_vHead
	mx_vPatch
	mx_vOptions
	mx_vConnect
	mx_vTrace
	mx_vCustom
	mx_vLock
	mx_vX
	mx_vNA
	n int
}

type impl78 struct {
	mx_vConnect
	mx_vHead
	mx_vDelete
	mx_vNA
	mx_vLock
	mx_vX
	mx_vGet
	mx_vPost
	n int
}

type impl79 struct {
	mx_vLock
	mx_vOptions
	mx_vPatch
	mx_vConnect
	mx_vTrace
	mx_vPut
	mx_vDelete
	mx_vHead
	mx_vPost
	mx_xGe
	mx_xM1
	n int
}

type impl80 struct {
	mx_vTrace
	mx_vPatch
	mx_vOptions
	mx_vCustom
	mx_vPut
	mx_vX
	mx_vDelete
	mx_vGet
	mx_vLock
	n int
}

type impl81 struct {
	mx_vGet
	mx_vPatch
	mx_vPost
	mx_vDelete
	mx_vTrace
	mx_vLock
	mx_vConnect
	mx_vPut
	mx_vX
	mx_vNA
	n int
}

type impl82 struct {
	mx_vHead
	mx_vLock
	mx_vPut
	mx_vConnect
	mx_vCustom
	mx_vOptions
	mx_vTrace
	mx_vNA
	mx_vPatch
	mx_vGet
	mx_vX
	n int
}

type impl83 struct {
	mx_vTrace
	mx_vGet
	mx_vDelete
	mx_vHead
	mx_vOptions
	mx_vNA
	mx_vPatch
	mx_vCustom
	mx_vLock
	mx_vPut
	mx_vPost
	mx_vX
	n int
}

type impl84 struct {
	mx_xMethod
	mx_pCustom
	mx_vConnect
	mx_vGet
	n int
}

type impl85 struct {
	mx_xHandle
	mx_vPatch
	mx_n1
	mx_vNA
	n int
}

type impl86 struct {
	mx_xAllowedMethod
	mx_pY
	mx_pPost
	n int
}

type impl87 struct {
	mx_xNotAllowed
	mx_n3
	mx_vCustom
	n int
}

type impl88 struct {
	mx_xMethodNotAllowed
	mx_vPost
	mx_xHttp
	n int
}

type impl89 struct {
	mx_xGetMethod
	mx_vTrace
	mx_xNotAllowedMethods
	mx_pNA
	n int
}

type impl90 struct {
	mx_xNot
	mx_vPost
	n int
}

type impl91 struct {
	mx_xAll
	mx_b4
	mx_xRequest
	mx_vNA
	n int
}

type impl92 struct {
	mx_xHttp
	n int
}

type impl93 struct {
	mx_xRequest
	mx_vPut
	n int
}

type impl94 struct {
	mx_xGe
	mx_n3
	mx_vConnect
	mx_b1
	n int
}

type impl95 struct {
	mx_xM1
	mx_vHead
	n int
}

type impl96 struct {
	mx_xNotAllowedMethods
	n int
}

var implTypes = []implType{
	{func(id string) nm.Impl { return &impl00{} }, []string{}},
	{func(id string) nm.Impl { return impl00{} }, []string{}},
	{func(id string) nm.Impl { return &impl01{mx_vNA: mx_vNA{id}} }, []string{"!"}},
	{func(id string) nm.Impl { return impl01{mx_vNA: mx_vNA{id}} }, []string{"!"}},
	{func(id string) nm.Impl { return &impl02{mx_pNA: mx_pNA{id}} }, []string{"!"}},
	{func(id string) nm.Impl { return impl02{mx_pNA: mx_pNA{id}} }, []string{}},
	{func(id string) nm.Impl { return &impl03{mx_vOptions: mx_vOptions{id}} }, []string{"OPTIONS"}},
	{func(id string) nm.Impl { return impl03{mx_vOptions: mx_vOptions{id}} }, []string{"OPTIONS"}},
	{func(id string) nm.Impl { return &impl04{mx_b0: mx_b0{id}} }, []string{}},
	{func(id string) nm.Impl { return impl04{mx_b0: mx_b0{id}} }, []string{}},
	{func(id string) nm.Impl { return &impl05{mx_n1: mx_n1{id}, mx_n2: mx_n2{id}} }, []string{}},
	{func(id string) nm.Impl { return impl05{mx_n1: mx_n1{id}, mx_n2: mx_n2{id}} }, []string{}},
	{func(id string) nm.Impl { return &impl06{mx_xMethod: mx_xMethod{id}} }, []string{"METHOD"}},
	{func(id string) nm.Impl { return impl06{mx_xMethod: mx_xMethod{id}} }, []string{}},
	{func(id string) nm.Impl {
		return &impl07{mx_xHandle: mx_xHandle{id}, mx_pCustom: mx_pCustom{id}, mx_xHttp: mx_xHttp{id}, mx_pShare: mx_pShare{id}}
	}, []string{"CUSTOM", "HANDLE", "HTTP", "SHARE"}},
	{func(id string) nm.Impl {
		return impl07{mx_xHandle: mx_xHandle{id}, mx_pCustom: mx_pCustom{id}, mx_xHttp: mx_xHttp{id}, mx_pShare: mx_pShare{id}}
	}, []string{"HTTP"}},
	{func(id string) nm.Impl {
		return &impl08{mx_pNA: mx_pNA{id}, mx_vgetMoved: mx_vgetMoved{id}, mx_b6: mx_b6{id}, mx_xGetMethod: mx_xGetMethod{id}}
	}, []string{"!", "GETMETHOD", "GETMOVED"}},
	{func(id string) nm.Impl {
		return impl08{mx_pNA: mx_pNA{id}, mx_vgetMoved: mx_vgetMoved{id}, mx_b6: mx_b6{id}, mx_xGetMethod: mx_xGetMethod{id}}
	}, []string{"GETMOVED"}},
	{func(id string) nm.Impl {
		return &impl09{mx_vHead: mx_vHead{id}, mx_b1: mx_b1{id}, mx_b5: mx_b5{id}, mx_pY: mx_pY{id}}
	}, []string{"HEAD", "Y"}},
	{func(id string) nm.Impl {
		return impl09{mx_vHead: mx_vHead{id}, mx_b1: mx_b1{id}, mx_b5: mx_b5{id}, mx_pY: mx_pY{id}}
	}, []string{"HEAD"}},
	{func(id string) nm.Impl {
		return &impl10{mx_xNotAllowed: mx_xNotAllowed{id}, mx_b0: mx_b0{id}, mx_vDelete: mx_vDelete{id}, mx_vTrace: mx_vTrace{id}, mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}, mx_xHttp: mx_xHttp{id}, mx_pCustom: mx_pCustom{id}, mx_n3: mx_n3{id}}
	}, []string{"CUSTOM", "DELETE", "HTTP", "NOTALLOWED", "NOTALLOWEDMETHODS", "TRACE"}},
	{func(id string) nm.Impl {
		return impl10{mx_xNotAllowed: mx_xNotAllowed{id}, mx_b0: mx_b0{id}, mx_vDelete: mx_vDelete{id}, mx_vTrace: mx_vTrace{id}, mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}, mx_xHttp: mx_xHttp{id}, mx_pCustom: mx_pCustom{id}, mx_n3: mx_n3{id}}
	}, []string{"DELETE", "HTTP", "NOTALLOWED", "NOTALLOWEDMETHODS", "TRACE"}},
	{func(id string) nm.Impl {
		return &impl11{mx_vNA: mx_vNA{id}, mx_xHttp: mx_xHttp{id}, mx_n2: mx_n2{id}, mx_xNot: mx_xNot{id}, mx_vHead: mx_vHead{id}, mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}}
	}, []string{"!", "HEAD", "HTTP", "NOT", "NOTALLOWEDMETHODS"}},
	{func(id string) nm.Impl {
		return impl11{mx_vNA: mx_vNA{id}, mx_xHttp: mx_xHttp{id}, mx_n2: mx_n2{id}, mx_xNot: mx_xNot{id}, mx_vHead: mx_vHead{id}, mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}}
	}, []string{"!", "HEAD", "HTTP", "NOTALLOWEDMETHODS"}},
	{func(id string) nm.Impl {
		return &impl12{mx_pCustom: mx_pCustom{id}, mx_vPut: mx_vPut{id}, mx_b5: mx_b5{id}}
	}, []string{"CUSTOM", "PUT"}},
	{func(id string) nm.Impl {
		return impl12{mx_pCustom: mx_pCustom{id}, mx_vPut: mx_vPut{id}, mx_b5: mx_b5{id}}
	}, []string{"PUT"}},
	{func(id string) nm.Impl {
		return &impl13{mx_xAll: mx_xAll{id}, mx_pGet: mx_pGet{id}, mx_xMethod: mx_xMethod{id}, mx_vDelete: mx_vDelete{id}, mx_xHttp: mx_xHttp{id}, mx_xHandle: mx_xHandle{id}, mx_pCustom: mx_pCustom{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "ALL", "CUSTOM", "DELETE", "GET", "HANDLE", "HTTP", "METHOD"}},
	{func(id string) nm.Impl {
		return impl13{mx_xAll: mx_xAll{id}, mx_pGet: mx_pGet{id}, mx_xMethod: mx_xMethod{id}, mx_vDelete: mx_vDelete{id}, mx_xHttp: mx_xHttp{id}, mx_xHandle: mx_xHandle{id}, mx_pCustom: mx_pCustom{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "DELETE", "HTTP"}},
	{func(id string) nm.Impl { return &impl14{mx_vPatch: mx_vPatch{id}, mx_pOptions: mx_pOptions{id}} }, []string{"OPTIONS", "PATCH"}},
	{func(id string) nm.Impl { return impl14{mx_vPatch: mx_vPatch{id}, mx_pOptions: mx_pOptions{id}} }, []string{"PATCH"}},
	{func(id string) nm.Impl { return &impl15{mx_pPost: mx_pPost{id}, mx_xM1: mx_xM1{id}} }, []string{"M1", "POST"}},
	{func(id string) nm.Impl { return impl15{mx_pPost: mx_pPost{id}, mx_xM1: mx_xM1{id}} }, []string{"M1"}},
	{func(id string) nm.Impl {
		return &impl16{mx_vOptions: mx_vOptions{id}, mx_pCustom: mx_pCustom{id}, mx_pNA: mx_pNA{id}}
	}, []string{"!", "CUSTOM", "OPTIONS"}},
	{func(id string) nm.Impl {
		return impl16{mx_vOptions: mx_vOptions{id}, mx_pCustom: mx_pCustom{id}, mx_pNA: mx_pNA{id}}
	}, []string{"OPTIONS"}},
	{func(id string) nm.Impl {
		return &impl17{mx_xRequest: mx_xRequest{id}, mx_b5: mx_b5{id}, mx_xHandle: mx_xHandle{id}, mx_n1: mx_n1{id}}
	}, []string{"HANDLE", "REQUEST"}},
	{func(id string) nm.Impl {
		return impl17{mx_xRequest: mx_xRequest{id}, mx_b5: mx_b5{id}, mx_xHandle: mx_xHandle{id}, mx_n1: mx_n1{id}}
	}, []string{"REQUEST"}},
	{func(id string) nm.Impl {
		return &impl18{mx_vgetMoved: mx_vgetMoved{id}, mx_pNA: mx_pNA{id}, mx_vPatch: mx_vPatch{id}, mx_b6: mx_b6{id}, mx_pPost: mx_pPost{id}, mx_xGetMethod: mx_xGetMethod{id}}
	}, []string{"!", "GETMETHOD", "GETMOVED", "PATCH", "POST"}},
	{func(id string) nm.Impl {
		return impl18{mx_vgetMoved: mx_vgetMoved{id}, mx_pNA: mx_pNA{id}, mx_vPatch: mx_vPatch{id}, mx_b6: mx_b6{id}, mx_pPost: mx_pPost{id}, mx_xGetMethod: mx_xGetMethod{id}}
	}, []string{"GETMOVED", "PATCH"}},
	{func(id string) nm.Impl { return &impl19{mx_pOptions: mx_pOptions{id}, mx_n0: mx_n0{id}} }, []string{"OPTIONS"}},
	{func(id string) nm.Impl { return impl19{mx_pOptions: mx_pOptions{id}, mx_n0: mx_n0{id}} }, []string{}},
	{func(id string) nm.Impl {
		return &impl20{mx_b3: mx_b3{id}, mx_b5: mx_b5{id}, mx_xAllowedMethod: mx_xAllowedMethod{id}, mx_n6: mx_n6{id}, mx_vX: mx_vX{id}, mx_vCustom: mx_vCustom{id}, mx_vHead: mx_vHead{id}, mx_b0: mx_b0{id}}
	}, []string{"ALLOWEDMETHOD", "CUSTOM", "HEAD", "X"}},
	{func(id string) nm.Impl {
		return impl20{mx_b3: mx_b3{id}, mx_b5: mx_b5{id}, mx_xAllowedMethod: mx_xAllowedMethod{id}, mx_n6: mx_n6{id}, mx_vX: mx_vX{id}, mx_vCustom: mx_vCustom{id}, mx_vHead: mx_vHead{id}, mx_b0: mx_b0{id}}
	}, []string{"ALLOWEDMETHOD", "CUSTOM", "HEAD", "X"}},
	{func(id string) nm.Impl {
		return &impl21{mx_xMethodNotAllowed: mx_xMethodNotAllowed{id}, mx_pCustom: mx_pCustom{id}, mx_vX: mx_vX{id}, mx_n1: mx_n1{id}}
	}, []string{"CUSTOM", "METHODNOTALLOWED", "X"}},
	{func(id string) nm.Impl {
		return impl21{mx_xMethodNotAllowed: mx_xMethodNotAllowed{id}, mx_pCustom: mx_pCustom{id}, mx_vX: mx_vX{id}, mx_n1: mx_n1{id}}
	}, []string{"METHODNOTALLOWED", "X"}},
	{func(id string) nm.Impl { return &impl22{mx_b3: mx_b3{id}, mx_xHttp: mx_xHttp{id}} }, []string{"HTTP"}},
	{func(id string) nm.Impl { return impl22{mx_b3: mx_b3{id}, mx_xHttp: mx_xHttp{id}} }, []string{"HTTP"}},
	{func(id string) nm.Impl {
		return &impl23{mx_vCustom: mx_vCustom{id}, mx_xGe: mx_xGe{id}, mx_xMethod: mx_xMethod{id}, mx_n5: mx_n5{id}, mx_pNA: mx_pNA{id}, mx_xAllowedMethod: mx_xAllowedMethod{id}}
	}, []string{"!", "ALLOWEDMETHOD", "CUSTOM", "GE", "METHOD"}},
	{func(id string) nm.Impl {
		return impl23{mx_vCustom: mx_vCustom{id}, mx_xGe: mx_xGe{id}, mx_xMethod: mx_xMethod{id}, mx_n5: mx_n5{id}, mx_pNA: mx_pNA{id}, mx_xAllowedMethod: mx_xAllowedMethod{id}}
	}, []string{"ALLOWEDMETHOD", "CUSTOM", "GE"}},
	{func(id string) nm.Impl { return &impl24{mx_b2: mx_b2{id}} }, []string{}},
	{func(id string) nm.Impl { return impl24{mx_b2: mx_b2{id}} }, []string{}},
	{func(id string) nm.Impl {
		return &impl25{mx_xNot: mx_xNot{id}, mx_vgetMoved: mx_vgetMoved{id}, mx_vDelete: mx_vDelete{id}, mx_b4: mx_b4{id}}
	}, []string{"DELETE", "GETMOVED", "NOT"}},
	{func(id string) nm.Impl {
		return impl25{mx_xNot: mx_xNot{id}, mx_vgetMoved: mx_vgetMoved{id}, mx_vDelete: mx_vDelete{id}, mx_b4: mx_b4{id}}
	}, []string{"DELETE", "GETMOVED"}},
	{func(id string) nm.Impl { return &impl26{mx_b0: mx_b0{id}, mx_b7: mx_b7{id}, mx_vNA: mx_vNA{id}} }, []string{"!"}},
	{func(id string) nm.Impl { return impl26{mx_b0: mx_b0{id}, mx_b7: mx_b7{id}, mx_vNA: mx_vNA{id}} }, []string{"!"}},
	{func(id string) nm.Impl {
		return &impl27{mx_xAllowedMethod: mx_xAllowedMethod{id}, mx_vTrace: mx_vTrace{id}, mx_vPut: mx_vPut{id}}
	}, []string{"ALLOWEDMETHOD", "PUT", "TRACE"}},
	{func(id string) nm.Impl {
		return impl27{mx_xAllowedMethod: mx_xAllowedMethod{id}, mx_vTrace: mx_vTrace{id}, mx_vPut: mx_vPut{id}}
	}, []string{"ALLOWEDMETHOD", "PUT", "TRACE"}},
	{func(id string) nm.Impl { return &impl28{mx_vPatch: mx_vPatch{id}} }, []string{"PATCH"}},
	{func(id string) nm.Impl { return impl28{mx_vPatch: mx_vPatch{id}} }, []string{"PATCH"}},
	{func(id string) nm.Impl {
		return &impl29{mx_xMethod: mx_xMethod{id}, mx_xNot: mx_xNot{id}, mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}, mx_vPatch: mx_vPatch{id}, mx_pGet: mx_pGet{id}, mx_xM1: mx_xM1{id}}
	}, []string{"GET", "M1", "METHOD", "NOT", "NOTALLOWEDMETHODS", "PATCH"}},
	{func(id string) nm.Impl {
		return impl29{mx_xMethod: mx_xMethod{id}, mx_xNot: mx_xNot{id}, mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}, mx_vPatch: mx_vPatch{id}, mx_pGet: mx_pGet{id}, mx_xM1: mx_xM1{id}}
	}, []string{"M1", "NOTALLOWEDMETHODS", "PATCH"}},
	{func(id string) nm.Impl {
		return &impl30{mx_b2: mx_b2{id}, mx_xMethodNotAllowed: mx_xMethodNotAllowed{id}, mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}, mx_b1: mx_b1{id}, mx_xGetMethod: mx_xGetMethod{id}}
	}, []string{"GETMETHOD", "METHODNOTALLOWED", "NOTALLOWEDMETHODS"}},
	{func(id string) nm.Impl {
		return impl30{mx_b2: mx_b2{id}, mx_xMethodNotAllowed: mx_xMethodNotAllowed{id}, mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}, mx_b1: mx_b1{id}, mx_xGetMethod: mx_xGetMethod{id}}
	}, []string{"METHODNOTALLOWED", "NOTALLOWEDMETHODS"}},
	{func(id string) nm.Impl { return &impl31{mx_vCustom: mx_vCustom{id}, mx_xM1: mx_xM1{id}} }, []string{"CUSTOM", "M1"}},
	{func(id string) nm.Impl { return impl31{mx_vCustom: mx_vCustom{id}, mx_xM1: mx_xM1{id}} }, []string{"CUSTOM", "M1"}},
	{func(id string) nm.Impl {
		return &impl32{mx_vPost: mx_vPost{id}, mx_xAll: mx_xAll{id}, mx_xAllowedMethod: mx_xAllowedMethod{id}, mx_vConnect: mx_vConnect{id}}
	}, []string{"ALL", "ALLOWEDMETHOD", "CONNECT", "POST"}},
	{func(id string) nm.Impl {
		return impl32{mx_vPost: mx_vPost{id}, mx_xAll: mx_xAll{id}, mx_xAllowedMethod: mx_xAllowedMethod{id}, mx_vConnect: mx_vConnect{id}}
	}, []string{"ALLOWEDMETHOD", "CONNECT", "POST"}},
	{func(id string) nm.Impl {
		return &impl33{mx_pNA: mx_pNA{id}, mx_xGetMethod: mx_xGetMethod{id}, mx_n5: mx_n5{id}}
	}, []string{"!", "GETMETHOD"}},
	{func(id string) nm.Impl {
		return impl33{mx_pNA: mx_pNA{id}, mx_xGetMethod: mx_xGetMethod{id}, mx_n5: mx_n5{id}}
	}, []string{}},
	{func(id string) nm.Impl {
		return &impl34{mx_vgetMoved: mx_vgetMoved{id}, mx_xHandle: mx_xHandle{id}, mx_vPatch: mx_vPatch{id}, mx_vConnect: mx_vConnect{id}, mx_pPost: mx_pPost{id}, mx_vCustom: mx_vCustom{id}}
	}, []string{"CONNECT", "CUSTOM", "GETMOVED", "HANDLE", "PATCH", "POST"}},
	{func(id string) nm.Impl {
		return impl34{mx_vgetMoved: mx_vgetMoved{id}, mx_xHandle: mx_xHandle{id}, mx_vPatch: mx_vPatch{id}, mx_vConnect: mx_vConnect{id}, mx_pPost: mx_pPost{id}, mx_vCustom: mx_vCustom{id}}
	}, []string{"CONNECT", "CUSTOM", "GETMOVED", "PATCH"}},
	{func(id string) nm.Impl {
		return &impl35{mx_n0: mx_n0{id}, mx_n2: mx_n2{id}, mx_pY: mx_pY{id}, mx_xGetMethod: mx_xGetMethod{id}}
	}, []string{"GETMETHOD", "Y"}},
	{func(id string) nm.Impl {
		return impl35{mx_n0: mx_n0{id}, mx_n2: mx_n2{id}, mx_pY: mx_pY{id}, mx_xGetMethod: mx_xGetMethod{id}}
	}, []string{}},
	{func(id string) nm.Impl {
		return &impl36{mx_xRequest: mx_xRequest{id}, mx_vOptions: mx_vOptions{id}, mx_xAll: mx_xAll{id}}
	}, []string{"ALL", "OPTIONS", "REQUEST"}},
	{func(id string) nm.Impl {
		return impl36{mx_xRequest: mx_xRequest{id}, mx_vOptions: mx_vOptions{id}, mx_xAll: mx_xAll{id}}
	}, []string{"OPTIONS", "REQUEST"}},
	{func(id string) nm.Impl {
		return &impl37{mx_b2: mx_b2{id}, mx_n4: mx_n4{id}, mx_xRequest: mx_xRequest{id}, mx_pNA: mx_pNA{id}, mx_vDelete: mx_vDelete{id}, mx_vCustom: mx_vCustom{id}}
	}, []string{"!", "CUSTOM", "DELETE", "REQUEST"}},
	{func(id string) nm.Impl {
		return impl37{mx_b2: mx_b2{id}, mx_n4: mx_n4{id}, mx_xRequest: mx_xRequest{id}, mx_pNA: mx_pNA{id}, mx_vDelete: mx_vDelete{id}, mx_vCustom: mx_vCustom{id}}
	}, []string{"CUSTOM", "DELETE", "REQUEST"}},
	{func(id string) nm.Impl {
		return &impl38{mx_pPost: mx_pPost{id}, mx_vOptions: mx_vOptions{id}, mx_vLock: mx_vLock{id}, mx_n1: mx_n1{id}, mx_vConnect: mx_vConnect{id}, mx_vX: mx_vX{id}}
	}, []string{"CONNECT", "LOCK", "OPTIONS", "POST", "X"}},
	{func(id string) nm.Impl {
		return impl38{mx_pPost: mx_pPost{id}, mx_vOptions: mx_vOptions{id}, mx_vLock: mx_vLock{id}, mx_n1: mx_n1{id}, mx_vConnect: mx_vConnect{id}, mx_vX: mx_vX{id}}
	}, []string{"CONNECT", "LOCK", "OPTIONS", "X"}},
	{func(id string) nm.Impl {
		return &impl39{mx_xNot: mx_xNot{id}, mx_pY: mx_pY{id}, mx_xHttp: mx_xHttp{id}, mx_xM1: mx_xM1{id}}
	}, []string{"HTTP", "M1", "NOT", "Y"}},
	{func(id string) nm.Impl {
		return impl39{mx_xNot: mx_xNot{id}, mx_pY: mx_pY{id}, mx_xHttp: mx_xHttp{id}, mx_xM1: mx_xM1{id}}
	}, []string{"HTTP", "M1"}},
	{func(id string) nm.Impl { return &impl40{mx_vLock: mx_vLock{id}} }, []string{"LOCK"}},
	{func(id string) nm.Impl { return impl40{mx_vLock: mx_vLock{id}} }, []string{"LOCK"}},
	{func(id string) nm.Impl { return &impl41{mx_xAll: mx_xAll{id}, mx_xGe: mx_xGe{id}} }, []string{"ALL", "GE"}},
	{func(id string) nm.Impl { return impl41{mx_xAll: mx_xAll{id}, mx_xGe: mx_xGe{id}} }, []string{"GE"}},
	{func(id string) nm.Impl { return &impl42{mx_b4: mx_b4{id}, mx_xGe: mx_xGe{id}, mx_n1: mx_n1{id}} }, []string{"GE"}},
	{func(id string) nm.Impl { return impl42{mx_b4: mx_b4{id}, mx_xGe: mx_xGe{id}, mx_n1: mx_n1{id}} }, []string{"GE"}},
	{func(id string) nm.Impl { return &impl43{mx_xNot: mx_xNot{id}} }, []string{"NOT"}},
	{func(id string) nm.Impl { return impl43{mx_xNot: mx_xNot{id}} }, []string{}},
	{func(id string) nm.Impl { return &impl44{mx_b2: mx_b2{id}, mx_b7: mx_b7{id}, mx_b1: mx_b1{id}} }, []string{}},
	{func(id string) nm.Impl { return impl44{mx_b2: mx_b2{id}, mx_b7: mx_b7{id}, mx_b1: mx_b1{id}} }, []string{}},
	{func(id string) nm.Impl {
		return &impl45{mx_b5: mx_b5{id}, mx_vNA: mx_vNA{id}, mx_xHttp: mx_xHttp{id}, mx_n1: mx_n1{id}, mx_xAll: mx_xAll{id}, mx_pGet: mx_pGet{id}}
	}, []string{"!", "ALL", "GET", "HTTP"}},
	{func(id string) nm.Impl {
		return impl45{mx_b5: mx_b5{id}, mx_vNA: mx_vNA{id}, mx_xHttp: mx_xHttp{id}, mx_n1: mx_n1{id}, mx_xAll: mx_xAll{id}, mx_pGet: mx_pGet{id}}
	}, []string{"!", "HTTP"}},
	{func(id string) nm.Impl {
		return &impl46{mx_b7: mx_b7{id}, mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}, mx_pOptions: mx_pOptions{id}, mx_xMethod: mx_xMethod{id}, mx_pNA: mx_pNA{id}}
	}, []string{"!", "METHOD", "NOTALLOWEDMETHODS", "OPTIONS"}},
	{func(id string) nm.Impl {
		return impl46{mx_b7: mx_b7{id}, mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}, mx_pOptions: mx_pOptions{id}, mx_xMethod: mx_xMethod{id}, mx_pNA: mx_pNA{id}}
	}, []string{"NOTALLOWEDMETHODS"}},
	{func(id string) nm.Impl {
		return &impl47{mx_pPost: mx_pPost{id}, mx_xGetMethod: mx_xGetMethod{id}, mx_vPatch: mx_vPatch{id}, mx_b0: mx_b0{id}, mx_n0: mx_n0{id}, mx_vgetMoved: mx_vgetMoved{id}, mx_b6: mx_b6{id}, mx_n6: mx_n6{id}}
	}, []string{"GETMETHOD", "GETMOVED", "PATCH", "POST"}},
	{func(id string) nm.Impl {
		return impl47{mx_pPost: mx_pPost{id}, mx_xGetMethod: mx_xGetMethod{id}, mx_vPatch: mx_vPatch{id}, mx_b0: mx_b0{id}, mx_n0: mx_n0{id}, mx_vgetMoved: mx_vgetMoved{id}, mx_b6: mx_b6{id}, mx_n6: mx_n6{id}}
	}, []string{"GETMOVED", "PATCH"}},
	{func(id string) nm.Impl { return &impl48{mx_b7: mx_b7{id}} }, []string{}},
	{func(id string) nm.Impl { return impl48{mx_b7: mx_b7{id}} }, []string{}},
	{func(id string) nm.Impl {
		return &impl49{mx_pCustom: mx_pCustom{id}, mx_vNA: mx_vNA{id}, mx_n1: mx_n1{id}, mx_vgetMoved: mx_vgetMoved{id}, mx_xRequest: mx_xRequest{id}}
	}, []string{"!", "CUSTOM", "GETMOVED", "REQUEST"}},
	{func(id string) nm.Impl {
		return impl49{mx_pCustom: mx_pCustom{id}, mx_vNA: mx_vNA{id}, mx_n1: mx_n1{id}, mx_vgetMoved: mx_vgetMoved{id}, mx_xRequest: mx_xRequest{id}}
	}, []string{"!", "GETMOVED", "REQUEST"}},
	{func(id string) nm.Impl {
		return &impl50{mx_vPatch: mx_vPatch{id}, mx_xAllowedMethod: mx_xAllowedMethod{id}, mx_pNA: mx_pNA{id}}
	}, []string{"!", "ALLOWEDMETHOD", "PATCH"}},
	{func(id string) nm.Impl {
		return impl50{mx_vPatch: mx_vPatch{id}, mx_xAllowedMethod: mx_xAllowedMethod{id}, mx_pNA: mx_pNA{id}}
	}, []string{"ALLOWEDMETHOD", "PATCH"}},
	{func(id string) nm.Impl {
		return &impl51{mx_xM1: mx_xM1{id}, mx_xHttp: mx_xHttp{id}, mx_vX: mx_vX{id}, mx_vDelete: mx_vDelete{id}, mx_pY: mx_pY{id}, mx_b7: mx_b7{id}}
	}, []string{"DELETE", "HTTP", "M1", "X", "Y"}},
	{func(id string) nm.Impl {
		return impl51{mx_xM1: mx_xM1{id}, mx_xHttp: mx_xHttp{id}, mx_vX: mx_vX{id}, mx_vDelete: mx_vDelete{id}, mx_pY: mx_pY{id}, mx_b7: mx_b7{id}}
	}, []string{"DELETE", "HTTP", "M1", "X"}},
	{func(id string) nm.Impl {
		return &impl52{mx_xNot: mx_xNot{id}, mx_vOptions: mx_vOptions{id}, mx_vLock: mx_vLock{id}}
	}, []string{"LOCK", "NOT", "OPTIONS"}},
	{func(id string) nm.Impl {
		return impl52{mx_xNot: mx_xNot{id}, mx_vOptions: mx_vOptions{id}, mx_vLock: mx_vLock{id}}
	}, []string{"LOCK", "OPTIONS"}},
	{func(id string) nm.Impl { return &impl53{mx_vTrace: mx_vTrace{id}} }, []string{"TRACE"}},
	{func(id string) nm.Impl { return impl53{mx_vTrace: mx_vTrace{id}} }, []string{"TRACE"}},
	{func(id string) nm.Impl { return &impl54{mx_xRequest: mx_xRequest{id}, mx_vDelete: mx_vDelete{id}} }, []string{"DELETE", "REQUEST"}},
	{func(id string) nm.Impl { return impl54{mx_xRequest: mx_xRequest{id}, mx_vDelete: mx_vDelete{id}} }, []string{"DELETE", "REQUEST"}},
	{func(id string) nm.Impl {
		return &impl55{mx_xHandle: mx_xHandle{id}, mx_xNot: mx_xNot{id}, mx_pOptions: mx_pOptions{id}}
	}, []string{"HANDLE", "NOT", "OPTIONS"}},
	{func(id string) nm.Impl {
		return impl55{mx_xHandle: mx_xHandle{id}, mx_xNot: mx_xNot{id}, mx_pOptions: mx_pOptions{id}}
	}, []string{}},
	{func(id string) nm.Impl { return &impl56{mx_vConnect: mx_vConnect{id}} }, []string{"CONNECT"}},
	{func(id string) nm.Impl { return impl56{mx_vConnect: mx_vConnect{id}} }, []string{"CONNECT"}},
	{func(id string) nm.Impl {
		return &impl57{mx_xMethod: mx_xMethod{id}, mx_xNot: mx_xNot{id}, mx_vTrace: mx_vTrace{id}, mx_xHandle: mx_xHandle{id}, mx_xGetMethod: mx_xGetMethod{id}, mx_xRequest: mx_xRequest{id}, mx_b5: mx_b5{id}, mx_xAllowedMethod: mx_xAllowedMethod{id}}
	}, []string{"ALLOWEDMETHOD", "GETMETHOD", "HANDLE", "METHOD", "NOT", "REQUEST", "TRACE"}},
	{func(id string) nm.Impl {
		return impl57{mx_xMethod: mx_xMethod{id}, mx_xNot: mx_xNot{id}, mx_vTrace: mx_vTrace{id}, mx_xHandle: mx_xHandle{id}, mx_xGetMethod: mx_xGetMethod{id}, mx_xRequest: mx_xRequest{id}, mx_b5: mx_b5{id}, mx_xAllowedMethod: mx_xAllowedMethod{id}}
	}, []string{"ALLOWEDMETHOD", "REQUEST", "TRACE"}},
	{func(id string) nm.Impl {
		return &impl58{mx_vPut: mx_vPut{id}, mx_xHttp: mx_xHttp{id}, mx_n6: mx_n6{id}, mx_xAllowedMethod: mx_xAllowedMethod{id}, mx_xM1: mx_xM1{id}, mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}}
	}, []string{"ALLOWEDMETHOD", "HTTP", "M1", "NOTALLOWEDMETHODS", "PUT"}},
	{func(id string) nm.Impl {
		return impl58{mx_vPut: mx_vPut{id}, mx_xHttp: mx_xHttp{id}, mx_n6: mx_n6{id}, mx_xAllowedMethod: mx_xAllowedMethod{id}, mx_xM1: mx_xM1{id}, mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}}
	}, []string{"ALLOWEDMETHOD", "HTTP", "M1", "NOTALLOWEDMETHODS", "PUT"}},
	{func(id string) nm.Impl { return &impl59{mx_xM1: mx_xM1{id}, mx_xNot: mx_xNot{id}} }, []string{"M1", "NOT"}},
	{func(id string) nm.Impl { return impl59{mx_xM1: mx_xM1{id}, mx_xNot: mx_xNot{id}} }, []string{"M1"}},
	{func(id string) nm.Impl { return &impl60{mx_vPost: mx_vPost{id}, mx_b5: mx_b5{id}, mx_n4: mx_n4{id}} }, []string{"POST"}},
	{func(id string) nm.Impl { return impl60{mx_vPost: mx_vPost{id}, mx_b5: mx_b5{id}, mx_n4: mx_n4{id}} }, []string{"POST"}},
	{func(id string) nm.Impl { return &impl61{mx_vX: mx_vX{id}, mx_pShare: mx_pShare{id}} }, []string{"SHARE", "X"}},
	{func(id string) nm.Impl { return impl61{mx_vX: mx_vX{id}, mx_pShare: mx_pShare{id}} }, []string{"X"}},
	{func(id string) nm.Impl {
		return &impl62{mx_xMethodNotAllowed: mx_xMethodNotAllowed{id}, mx_xHttp: mx_xHttp{id}, mx_n1: mx_n1{id}, mx_b7: mx_b7{id}, mx_b1: mx_b1{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "HTTP", "METHODNOTALLOWED"}},
	{func(id string) nm.Impl {
		return impl62{mx_xMethodNotAllowed: mx_xMethodNotAllowed{id}, mx_xHttp: mx_xHttp{id}, mx_n1: mx_n1{id}, mx_b7: mx_b7{id}, mx_b1: mx_b1{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "HTTP", "METHODNOTALLOWED"}},
	{func(id string) nm.Impl {
		return &impl63{mx_xHandle: mx_xHandle{id}, mx_xMethod: mx_xMethod{id}, mx_pCustom: mx_pCustom{id}}
	}, []string{"CUSTOM", "HANDLE", "METHOD"}},
	{func(id string) nm.Impl {
		return impl63{mx_xHandle: mx_xHandle{id}, mx_xMethod: mx_xMethod{id}, mx_pCustom: mx_pCustom{id}}
	}, []string{}},
	{func(id string) nm.Impl {
		return &impl64{mx_xRequest: mx_xRequest{id}, mx_pOptions: mx_pOptions{id}, mx_n4: mx_n4{id}}
	}, []string{"OPTIONS", "REQUEST"}},
	{func(id string) nm.Impl {
		return impl64{mx_xRequest: mx_xRequest{id}, mx_pOptions: mx_pOptions{id}, mx_n4: mx_n4{id}}
	}, []string{"REQUEST"}},
	{func(id string) nm.Impl { return &impl65{mx_vPost: mx_vPost{id}, mx_b6: mx_b6{id}} }, []string{"POST"}},
	{func(id string) nm.Impl { return impl65{mx_vPost: mx_vPost{id}, mx_b6: mx_b6{id}} }, []string{"POST"}},
	{func(id string) nm.Impl {
		return &impl66{mx_xHttp: mx_xHttp{id}, mx_xHandle: mx_xHandle{id}, mx_xM1: mx_xM1{id}, mx_vLock: mx_vLock{id}}
	}, []string{"HANDLE", "HTTP", "LOCK", "M1"}},
	{func(id string) nm.Impl {
		return impl66{mx_xHttp: mx_xHttp{id}, mx_xHandle: mx_xHandle{id}, mx_xM1: mx_xM1{id}, mx_vLock: mx_vLock{id}}
	}, []string{"HTTP", "LOCK", "M1"}},
	{func(id string) nm.Impl {
		return &impl67{mx_n0: mx_n0{id}, mx_vgetMoved: mx_vgetMoved{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "GETMOVED"}},
	{func(id string) nm.Impl {
		return impl67{mx_n0: mx_n0{id}, mx_vgetMoved: mx_vgetMoved{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "GETMOVED"}},
	{func(id string) nm.Impl {
		return &impl68{mx_vCustom: mx_vCustom{id}, mx_xMethodNotAllowed: mx_xMethodNotAllowed{id}, mx_xHandle: mx_xHandle{id}, mx_vHead: mx_vHead{id}, mx_pGet: mx_pGet{id}, mx_n1: mx_n1{id}}
	}, []string{"CUSTOM", "GET", "HANDLE", "HEAD", "METHODNOTALLOWED"}},
	{func(id string) nm.Impl {
		return impl68{mx_vCustom: mx_vCustom{id}, mx_xMethodNotAllowed: mx_xMethodNotAllowed{id}, mx_xHandle: mx_xHandle{id}, mx_vHead: mx_vHead{id}, mx_pGet: mx_pGet{id}, mx_n1: mx_n1{id}}
	}, []string{"CUSTOM", "HEAD", "METHODNOTALLOWED"}},
	{func(id string) nm.Impl { return &impl69{mx_xGetMethod: mx_xGetMethod{id}, mx_b0: mx_b0{id}} }, []string{"GETMETHOD"}},
	{func(id string) nm.Impl { return impl69{mx_xGetMethod: mx_xGetMethod{id}, mx_b0: mx_b0{id}} }, []string{}},
	{func(id string) nm.Impl {
		return &impl70{mx_vCheckin: mx_vCheckin{id}, mx_vNotify: mx_vNotify{id}, mx_vSearch: mx_vSearch{id}, mx_vMerge: mx_vMerge{id}, mx_vPurge: mx_vPurge{id}, mx_vCopy: mx_vCopy{id}, mx_vReport: mx_vReport{id}, mx_vPropfind: mx_vPropfind{id}, mx_vAcl: mx_vAcl{id}, mx_vMkcol: mx_vMkcol{id}, mx_vBind: mx_vBind{id}, mx_vUnlink: mx_vUnlink{id}, mx_vNA: mx_vNA{id}, mx_vOptions: mx_vOptions{id}, mx_pPost: mx_pPost{id}}
	}, []string{"!", "ACL", "BIND", "CHECKIN", "COPY", "MERGE", "MKCOL", "NOTIFY", "OPTIONS", "POST", "PROPFIND", "PURGE", "REPORT", "SEARCH", "UNLINK"}},
	{func(id string) nm.Impl {
		return impl70{mx_vCheckin: mx_vCheckin{id}, mx_vNotify: mx_vNotify{id}, mx_vSearch: mx_vSearch{id}, mx_vMerge: mx_vMerge{id}, mx_vPurge: mx_vPurge{id}, mx_vCopy: mx_vCopy{id}, mx_vReport: mx_vReport{id}, mx_vPropfind: mx_vPropfind{id}, mx_vAcl: mx_vAcl{id}, mx_vMkcol: mx_vMkcol{id}, mx_vBind: mx_vBind{id}, mx_vUnlink: mx_vUnlink{id}, mx_vNA: mx_vNA{id}, mx_vOptions: mx_vOptions{id}, mx_pPost: mx_pPost{id}}
	}, []string{"!", "ACL", "BIND", "CHECKIN", "COPY", "MERGE", "MKCOL", "NOTIFY", "OPTIONS", "PROPFIND", "PURGE", "REPORT", "SEARCH", "UNLINK"}},
	{func(id string) nm.Impl {
		return &impl71{mx_vSearch: mx_vSearch{id}, mx_vRebind: mx_vRebind{id}, mx_vNotify: mx_vNotify{id}, mx_vAcl: mx_vAcl{id}, mx_vOrderpatch: mx_vOrderpatch{id}, mx_vMerge: mx_vMerge{id}, mx_vReport: mx_vReport{id}, mx_vLink: mx_vLink{id}, mx_vCheckin: mx_vCheckin{id}, mx_vMove: mx_vMove{id}, mx_vCopy: mx_vCopy{id}, mx_vLabel: mx_vLabel{id}, mx_vCheckout: mx_vCheckout{id}, mx_vPurge: mx_vPurge{id}, mx_vX: mx_vX{id}, mx_vNA: mx_vNA{id}, mx_vGet: mx_vGet{id}}
	}, []string{"!", "ACL", "CHECKIN", "CHECKOUT", "COPY", "GET", "LABEL", "LINK", "MERGE", "MOVE", "NOTIFY", "ORDERPATCH", "PURGE", "REBIND", "REPORT", "SEARCH", "X"}},
	{func(id string) nm.Impl {
		return impl71{mx_vSearch: mx_vSearch{id}, mx_vRebind: mx_vRebind{id}, mx_vNotify: mx_vNotify{id}, mx_vAcl: mx_vAcl{id}, mx_vOrderpatch: mx_vOrderpatch{id}, mx_vMerge: mx_vMerge{id}, mx_vReport: mx_vReport{id}, mx_vLink: mx_vLink{id}, mx_vCheckin: mx_vCheckin{id}, mx_vMove: mx_vMove{id}, mx_vCopy: mx_vCopy{id}, mx_vLabel: mx_vLabel{id}, mx_vCheckout: mx_vCheckout{id}, mx_vPurge: mx_vPurge{id}, mx_vX: mx_vX{id}, mx_vNA: mx_vNA{id}, mx_vGet: mx_vGet{id}}
	}, []string{"!", "ACL", "CHECKIN", "CHECKOUT", "COPY", "GET", "LABEL", "LINK", "MERGE", "MOVE", "NOTIFY", "ORDERPATCH", "PURGE", "REBIND", "REPORT", "SEARCH", "X"}},
	{func(id string) nm.Impl {
		return &impl72{mx_vLink: mx_vLink{id}, mx_vMkcol: mx_vMkcol{id}, mx_vCheckin: mx_vCheckin{id}, mx_vBind: mx_vBind{id}, mx_vMove: mx_vMove{id}, mx_vLabel: mx_vLabel{id}, mx_vSearch: mx_vSearch{id}, mx_vAcl: mx_vAcl{id}, mx_vUnlink: mx_vUnlink{id}, mx_vNotify: mx_vNotify{id}, mx_vOrderpatch: mx_vOrderpatch{id}, mx_vRebind: mx_vRebind{id}, mx_vReport: mx_vReport{id}, mx_vUnlock: mx_vUnlock{id}, mx_vCheckout: mx_vCheckout{id}, mx_vX: mx_vX{id}, mx_vPost: mx_vPost{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "ACL", "BIND", "CHECKIN", "CHECKOUT", "LABEL", "LINK", "MKCOL", "MOVE", "NOTIFY", "ORDERPATCH", "POST", "REBIND", "REPORT", "SEARCH", "UNLINK", "UNLOCK", "X"}},
	{func(id string) nm.Impl {
		return impl72{mx_vLink: mx_vLink{id}, mx_vMkcol: mx_vMkcol{id}, mx_vCheckin: mx_vCheckin{id}, mx_vBind: mx_vBind{id}, mx_vMove: mx_vMove{id}, mx_vLabel: mx_vLabel{id}, mx_vSearch: mx_vSearch{id}, mx_vAcl: mx_vAcl{id}, mx_vUnlink: mx_vUnlink{id}, mx_vNotify: mx_vNotify{id}, mx_vOrderpatch: mx_vOrderpatch{id}, mx_vRebind: mx_vRebind{id}, mx_vReport: mx_vReport{id}, mx_vUnlock: mx_vUnlock{id}, mx_vCheckout: mx_vCheckout{id}, mx_vX: mx_vX{id}, mx_vPost: mx_vPost{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "ACL", "BIND", "CHECKIN", "CHECKOUT", "LABEL", "LINK", "MKCOL", "MOVE", "NOTIFY", "ORDERPATCH", "POST", "REBIND", "REPORT", "SEARCH", "UNLINK", "UNLOCK", "X"}},
	{func(id string) nm.Impl {
		return &impl73{mx_vMkcol: mx_vMkcol{id}, mx_vReport: mx_vReport{id}, mx_vOrderpatch: mx_vOrderpatch{id}, mx_vAcl: mx_vAcl{id}, mx_vCheckin: mx_vCheckin{id}, mx_vMove: mx_vMove{id}, mx_vBind: mx_vBind{id}, mx_vLink: mx_vLink{id}, mx_vPropfind: mx_vPropfind{id}, mx_vSearch: mx_vSearch{id}, mx_vMerge: mx_vMerge{id}, mx_vNotify: mx_vNotify{id}, mx_vRebind: mx_vRebind{id}, mx_vPurge: mx_vPurge{id}, mx_vLabel: mx_vLabel{id}, mx_vCheckout: mx_vCheckout{id}, mx_vX: mx_vX{id}, mx_vPost: mx_vPost{id}, mx_vOptions: mx_vOptions{id}}
	}, []string{"ACL", "BIND", "CHECKIN", "CHECKOUT", "LABEL", "LINK", "MERGE", "MKCOL", "MOVE", "NOTIFY", "OPTIONS", "ORDERPATCH", "POST", "PROPFIND", "PURGE", "REBIND", "REPORT", "SEARCH", "X"}},
	{func(id string) nm.Impl {
		return impl73{mx_vMkcol: mx_vMkcol{id}, mx_vReport: mx_vReport{id}, mx_vOrderpatch: mx_vOrderpatch{id}, mx_vAcl: mx_vAcl{id}, mx_vCheckin: mx_vCheckin{id}, mx_vMove: mx_vMove{id}, mx_vBind: mx_vBind{id}, mx_vLink: mx_vLink{id}, mx_vPropfind: mx_vPropfind{id}, mx_vSearch: mx_vSearch{id}, mx_vMerge: mx_vMerge{id}, mx_vNotify: mx_vNotify{id}, mx_vRebind: mx_vRebind{id}, mx_vPurge: mx_vPurge{id}, mx_vLabel: mx_vLabel{id}, mx_vCheckout: mx_vCheckout{id}, mx_vX: mx_vX{id}, mx_vPost: mx_vPost{id}, mx_vOptions: mx_vOptions{id}}
	}, []string{"ACL", "BIND", "CHECKIN", "CHECKOUT", "LABEL", "LINK", "MERGE", "MKCOL", "MOVE", "NOTIFY", "OPTIONS", "ORDERPATCH", "POST", "PROPFIND", "PURGE", "REBIND", "REPORT", "SEARCH", "X"}},
	{func(id string) nm.Impl {
		return &impl74{mx_vOrderpatch: mx_vOrderpatch{id}, mx_vUnlock: mx_vUnlock{id}, mx_vAcl: mx_vAcl{id}, mx_vCopy: mx_vCopy{id}, mx_vReport: mx_vReport{id}, mx_vPurge: mx_vPurge{id}, mx_vLabel: mx_vLabel{id}, mx_vUnlink: mx_vUnlink{id}, mx_vCheckin: mx_vCheckin{id}, mx_vRebind: mx_vRebind{id}, mx_vMove: mx_vMove{id}, mx_vLink: mx_vLink{id}, mx_vSearch: mx_vSearch{id}, mx_vMerge: mx_vMerge{id}, mx_vPropfind: mx_vPropfind{id}, mx_vNotify: mx_vNotify{id}, mx_vCheckout: mx_vCheckout{id}, mx_vNA: mx_vNA{id}, mx_vOptions: mx_vOptions{id}, mx_pPost: mx_pPost{id}}
	}, []string{"!", "ACL", "CHECKIN", "CHECKOUT", "COPY", "LABEL", "LINK", "MERGE", "MOVE", "NOTIFY", "OPTIONS", "ORDERPATCH", "POST", "PROPFIND", "PURGE", "REBIND", "REPORT", "SEARCH", "UNLINK", "UNLOCK"}},
	{func(id string) nm.Impl {
		return impl74{mx_vOrderpatch: mx_vOrderpatch{id}, mx_vUnlock: mx_vUnlock{id}, mx_vAcl: mx_vAcl{id}, mx_vCopy: mx_vCopy{id}, mx_vReport: mx_vReport{id}, mx_vPurge: mx_vPurge{id}, mx_vLabel: mx_vLabel{id}, mx_vUnlink: mx_vUnlink{id}, mx_vCheckin: mx_vCheckin{id}, mx_vRebind: mx_vRebind{id}, mx_vMove: mx_vMove{id}, mx_vLink: mx_vLink{id}, mx_vSearch: mx_vSearch{id}, mx_vMerge: mx_vMerge{id}, mx_vPropfind: mx_vPropfind{id}, mx_vNotify: mx_vNotify{id}, mx_vCheckout: mx_vCheckout{id}, mx_vNA: mx_vNA{id}, mx_vOptions: mx_vOptions{id}, mx_pPost: mx_pPost{id}}
	}, []string{"!", "ACL", "CHECKIN", "CHECKOUT", "COPY", "LABEL", "LINK", "MERGE", "MOVE", "NOTIFY", "OPTIONS", "ORDERPATCH", "PROPFIND", "PURGE", "REBIND", "REPORT", "SEARCH", "UNLINK", "UNLOCK"}},
	{func(id string) nm.Impl {
		return &impl75{mx_vReport: mx_vReport{id}, mx_vLink: mx_vLink{id}, mx_vCopy: mx_vCopy{id}, mx_vRebind: mx_vRebind{id}, mx_vOrderpatch: mx_vOrderpatch{id}, mx_vCheckin: mx_vCheckin{id}, mx_vUnlock: mx_vUnlock{id}, mx_vUnlink: mx_vUnlink{id}, mx_vCheckout: mx_vCheckout{id}, mx_vAcl: mx_vAcl{id}, mx_vBind: mx_vBind{id}, mx_vNotify: mx_vNotify{id}, mx_vPurge: mx_vPurge{id}, mx_vMerge: mx_vMerge{id}, mx_vSearch: mx_vSearch{id}, mx_vMkcol: mx_vMkcol{id}, mx_vLabel: mx_vLabel{id}, mx_vMove: mx_vMove{id}, mx_vPropfind: mx_vPropfind{id}, mx_vGet: mx_vGet{id}, mx_vOptions: mx_vOptions{id}, mx_vPost: mx_vPost{id}}
	}, []string{"ACL", "BIND", "CHECKIN", "CHECKOUT", "COPY", "GET", "LABEL", "LINK", "MERGE", "MKCOL", "MOVE", "NOTIFY", "OPTIONS", "ORDERPATCH", "POST", "PROPFIND", "PURGE", "REBIND", "REPORT", "SEARCH", "UNLINK", "UNLOCK"}},
	{func(id string) nm.Impl {
		return impl75{mx_vReport: mx_vReport{id}, mx_vLink: mx_vLink{id}, mx_vCopy: mx_vCopy{id}, mx_vRebind: mx_vRebind{id}, mx_vOrderpatch: mx_vOrderpatch{id}, mx_vCheckin: mx_vCheckin{id}, mx_vUnlock: mx_vUnlock{id}, mx_vUnlink: mx_vUnlink{id}, mx_vCheckout: mx_vCheckout{id}, mx_vAcl: mx_vAcl{id}, mx_vBind: mx_vBind{id}, mx_vNotify: mx_vNotify{id}, mx_vPurge: mx_vPurge{id}, mx_vMerge: mx_vMerge{id}, mx_vSearch: mx_vSearch{id}, mx_vMkcol: mx_vMkcol{id}, mx_vLabel: mx_vLabel{id}, mx_vMove: mx_vMove{id}, mx_vPropfind: mx_vPropfind{id}, mx_vGet: mx_vGet{id}, mx_vOptions: mx_vOptions{id}, mx_vPost: mx_vPost{id}}
	}, []string{"ACL", "BIND", "CHECKIN", "CHECKOUT", "COPY", "GET", "LABEL", "LINK", "MERGE", "MKCOL", "MOVE", "NOTIFY", "OPTIONS", "ORDERPATCH", "POST", "PROPFIND", "PURGE", "REBIND", "REPORT", "SEARCH", "UNLINK", "UNLOCK"}},
	{func(id string) nm.Impl {
		return &impl76{mx_vRebind: mx_vRebind{id}, mx_vMkcol: mx_vMkcol{id}, mx_vReport: mx_vReport{id}, mx_vUnlink: mx_vUnlink{id}, mx_vCheckout: mx_vCheckout{id}, mx_vOrderpatch: mx_vOrderpatch{id}, mx_vMerge: mx_vMerge{id}, mx_vMove: mx_vMove{id}, mx_vAcl: mx_vAcl{id}, mx_vUnlock: mx_vUnlock{id}, mx_vCopy: mx_vCopy{id}, mx_vBind: mx_vBind{id}, mx_vPropfind: mx_vPropfind{id}, mx_vLabel: mx_vLabel{id}, mx_vLink: mx_vLink{id}, mx_vSearch: mx_vSearch{id}, mx_vCheckin: mx_vCheckin{id}, mx_vNotify: mx_vNotify{id}, mx_vPurge: mx_vPurge{id}, mx_pPost: mx_pPost{id}, mx_n1: mx_n1{id}, mx_vGet: mx_vGet{id}}
	}, []string{"ACL", "BIND", "CHECKIN", "CHECKOUT", "COPY", "GET", "LABEL", "LINK", "MERGE", "MKCOL", "MOVE", "NOTIFY", "ORDERPATCH", "POST", "PROPFIND", "PURGE", "REBIND", "REPORT", "SEARCH", "UNLINK", "UNLOCK"}},
	{func(id string) nm.Impl {
		return impl76{mx_vRebind: mx_vRebind{id}, mx_vMkcol: mx_vMkcol{id}, mx_vReport: mx_vReport{id}, mx_vUnlink: mx_vUnlink{id}, mx_vCheckout: mx_vCheckout{id}, mx_vOrderpatch: mx_vOrderpatch{id}, mx_vMerge: mx_vMerge{id}, mx_vMove: mx_vMove{id}, mx_vAcl: mx_vAcl{id}, mx_vUnlock: mx_vUnlock{id}, mx_vCopy: mx_vCopy{id}, mx_vBind: mx_vBind{id}, mx_vPropfind: mx_vPropfind{id}, mx_vLabel: mx_vLabel{id}, mx_vLink: mx_vLink{id}, mx_vSearch: mx_vSearch{id}, mx_vCheckin: mx_vCheckin{id}, mx_vNotify: mx_vNotify{id}, mx_vPurge: mx_vPurge{id}, mx_pPost: mx_pPost{id}, mx_n1: mx_n1{id}, mx_vGet: mx_vGet{id}}
	}, []string{"ACL", "BIND", "CHECKIN", "CHECKOUT", "COPY", "GET", "LABEL", "LINK", "MERGE", "MKCOL", "MOVE", "NOTIFY", "ORDERPATCH", "PROPFIND", "PURGE", "REBIND", "REPORT", "SEARCH", "UNLINK", "UNLOCK"}},
	{func(id string) nm.Impl {
		return &impl77{mx_vGet: mx_vGet{id}, mx_vPost: mx_vPost{id}, mx_vPut: mx_vPut{id}, mx_vDelete: mx_vDelete{id}, mx_vHead: mx_vHead{id}, mx_vPatch: mx_vPatch{id}, mx_vOptions: mx_vOptions{id}, mx_vConnect: mx_vConnect{id}, mx_vTrace: mx_vTrace{id}, mx_vCustom: mx_vCustom{id}, mx_vLock: mx_vLock{id}, mx_vX: mx_vX{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "CONNECT", "CUSTOM", "DELETE", "GET", "HEAD", "LOCK", "OPTIONS", "PATCH", "POST", "PUT", "TRACE", "X"}},
	{func(id string) nm.Impl {
		return impl77{mx_vGet: mx_vGet{id}, mx_vPost: mx_vPost{id}, mx_vPut: mx_vPut{id}, mx_vDelete: mx_vDelete{id}, mx_vHead: mx_vHead{id}, mx_vPatch: mx_vPatch{id}, mx_vOptions: mx_vOptions{id}, mx_vConnect: mx_vConnect{id}, mx_vTrace: mx_vTrace{id}, mx_vCustom: mx_vCustom{id}, mx_vLock: mx_vLock{id}, mx_vX: mx_vX{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "CONNECT", "CUSTOM", "DELETE", "GET", "HEAD", "LOCK", "OPTIONS", "PATCH", "POST", "PUT", "TRACE", "X"}},
	{func(id string) nm.Impl {
		return &impl78{mx_vConnect: mx_vConnect{id}, mx_vHead: mx_vHead{id}, mx_vDelete: mx_vDelete{id}, mx_vNA: mx_vNA{id}, mx_vLock: mx_vLock{id}, mx_vX: mx_vX{id}, mx_vGet: mx_vGet{id}, mx_vPost: mx_vPost{id}}
	}, []string{"!", "CONNECT", "DELETE", "GET", "HEAD", "LOCK", "POST", "X"}},
	{func(id string) nm.Impl {
		return impl78{mx_vConnect: mx_vConnect{id}, mx_vHead: mx_vHead{id}, mx_vDelete: mx_vDelete{id}, mx_vNA: mx_vNA{id}, mx_vLock: mx_vLock{id}, mx_vX: mx_vX{id}, mx_vGet: mx_vGet{id}, mx_vPost: mx_vPost{id}}
	}, []string{"!", "CONNECT", "DELETE", "GET", "HEAD", "LOCK", "POST", "X"}},
	{func(id string) nm.Impl {
		return &impl79{mx_vLock: mx_vLock{id}, mx_vOptions: mx_vOptions{id}, mx_vPatch: mx_vPatch{id}, mx_vConnect: mx_vConnect{id}, mx_vTrace: mx_vTrace{id}, mx_vPut: mx_vPut{id}, mx_vDelete: mx_vDelete{id}, mx_vHead: mx_vHead{id}, mx_vPost: mx_vPost{id}, mx_xGe: mx_xGe{id}, mx_xM1: mx_xM1{id}}
	}, []string{"CONNECT", "DELETE", "GE", "HEAD", "LOCK", "M1", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"}},
	{func(id string) nm.Impl {
		return impl79{mx_vLock: mx_vLock{id}, mx_vOptions: mx_vOptions{id}, mx_vPatch: mx_vPatch{id}, mx_vConnect: mx_vConnect{id}, mx_vTrace: mx_vTrace{id}, mx_vPut: mx_vPut{id}, mx_vDelete: mx_vDelete{id}, mx_vHead: mx_vHead{id}, mx_vPost: mx_vPost{id}, mx_xGe: mx_xGe{id}, mx_xM1: mx_xM1{id}}
	}, []string{"CONNECT", "DELETE", "GE", "HEAD", "LOCK", "M1", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"}},
	{func(id string) nm.Impl {
		return &impl80{mx_vTrace: mx_vTrace{id}, mx_vPatch: mx_vPatch{id}, mx_vOptions: mx_vOptions{id}, mx_vCustom: mx_vCustom{id}, mx_vPut: mx_vPut{id}, mx_vX: mx_vX{id}, mx_vDelete: mx_vDelete{id}, mx_vGet: mx_vGet{id}, mx_vLock: mx_vLock{id}}
	}, []string{"CUSTOM", "DELETE", "GET", "LOCK", "OPTIONS", "PATCH", "PUT", "TRACE", "X"}},
	{func(id string) nm.Impl {
		return impl80{mx_vTrace: mx_vTrace{id}, mx_vPatch: mx_vPatch{id}, mx_vOptions: mx_vOptions{id}, mx_vCustom: mx_vCustom{id}, mx_vPut: mx_vPut{id}, mx_vX: mx_vX{id}, mx_vDelete: mx_vDelete{id}, mx_vGet: mx_vGet{id}, mx_vLock: mx_vLock{id}}
	}, []string{"CUSTOM", "DELETE", "GET", "LOCK", "OPTIONS", "PATCH", "PUT", "TRACE", "X"}},
	{func(id string) nm.Impl {
		return &impl81{mx_vGet: mx_vGet{id}, mx_vPatch: mx_vPatch{id}, mx_vPost: mx_vPost{id}, mx_vDelete: mx_vDelete{id}, mx_vTrace: mx_vTrace{id}, mx_vLock: mx_vLock{id}, mx_vConnect: mx_vConnect{id}, mx_vPut: mx_vPut{id}, mx_vX: mx_vX{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "CONNECT", "DELETE", "GET", "LOCK", "PATCH", "POST", "PUT", "TRACE", "X"}},
	{func(id string) nm.Impl {
		return impl81{mx_vGet: mx_vGet{id}, mx_vPatch: mx_vPatch{id}, mx_vPost: mx_vPost{id}, mx_vDelete: mx_vDelete{id}, mx_vTrace: mx_vTrace{id}, mx_vLock: mx_vLock{id}, mx_vConnect: mx_vConnect{id}, mx_vPut: mx_vPut{id}, mx_vX: mx_vX{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "CONNECT", "DELETE", "GET", "LOCK", "PATCH", "POST", "PUT", "TRACE", "X"}},
	{func(id string) nm.Impl {
		return &impl82{mx_vHead: mx_vHead{id}, mx_vLock: mx_vLock{id}, mx_vPut: mx_vPut{id}, mx_vConnect: mx_vConnect{id}, mx_vCustom: mx_vCustom{id}, mx_vOptions: mx_vOptions{id}, mx_vTrace: mx_vTrace{id}, mx_vNA: mx_vNA{id}, mx_vPatch: mx_vPatch{id}, mx_vGet: mx_vGet{id}, mx_vX: mx_vX{id}}
	}, []string{"!", "CONNECT", "CUSTOM", "GET", "HEAD", "LOCK", "OPTIONS", "PATCH", "PUT", "TRACE", "X"}},
	{func(id string) nm.Impl {
		return impl82{mx_vHead: mx_vHead{id}, mx_vLock: mx_vLock{id}, mx_vPut: mx_vPut{id}, mx_vConnect: mx_vConnect{id}, mx_vCustom: mx_vCustom{id}, mx_vOptions: mx_vOptions{id}, mx_vTrace: mx_vTrace{id}, mx_vNA: mx_vNA{id}, mx_vPatch: mx_vPatch{id}, mx_vGet: mx_vGet{id}, mx_vX: mx_vX{id}}
	}, []string{"!", "CONNECT", "CUSTOM", "GET", "HEAD", "LOCK", "OPTIONS", "PATCH", "PUT", "TRACE", "X"}},
	{func(id string) nm.Impl {
		return &impl83{mx_vTrace: mx_vTrace{id}, mx_vGet: mx_vGet{id}, mx_vDelete: mx_vDelete{id}, mx_vHead: mx_vHead{id}, mx_vOptions: mx_vOptions{id}, mx_vNA: mx_vNA{id}, mx_vPatch: mx_vPatch{id}, mx_vCustom: mx_vCustom{id}, mx_vLock: mx_vLock{id}, mx_vPut: mx_vPut{id}, mx_vPost: mx_vPost{id}, mx_vX: mx_vX{id}}
	}, []string{"!", "CUSTOM", "DELETE", "GET", "HEAD", "LOCK", "OPTIONS", "PATCH", "POST", "PUT", "TRACE", "X"}},
	{func(id string) nm.Impl {
		return impl83{mx_vTrace: mx_vTrace{id}, mx_vGet: mx_vGet{id}, mx_vDelete: mx_vDelete{id}, mx_vHead: mx_vHead{id}, mx_vOptions: mx_vOptions{id}, mx_vNA: mx_vNA{id}, mx_vPatch: mx_vPatch{id}, mx_vCustom: mx_vCustom{id}, mx_vLock: mx_vLock{id}, mx_vPut: mx_vPut{id}, mx_vPost: mx_vPost{id}, mx_vX: mx_vX{id}}
	}, []string{"!", "CUSTOM", "DELETE", "GET", "HEAD", "LOCK", "OPTIONS", "PATCH", "POST", "PUT", "TRACE", "X"}},
	{func(id string) nm.Impl {
		return &impl84{mx_xMethod: mx_xMethod{id}, mx_pCustom: mx_pCustom{id}, mx_vConnect: mx_vConnect{id}, mx_vGet: mx_vGet{id}}
	}, []string{"CONNECT", "CUSTOM", "GET", "METHOD"}},
	{func(id string) nm.Impl {
		return impl84{mx_xMethod: mx_xMethod{id}, mx_pCustom: mx_pCustom{id}, mx_vConnect: mx_vConnect{id}, mx_vGet: mx_vGet{id}}
	}, []string{"CONNECT", "GET"}},
	{func(id string) nm.Impl {
		return &impl85{mx_xHandle: mx_xHandle{id}, mx_vPatch: mx_vPatch{id}, mx_n1: mx_n1{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "HANDLE", "PATCH"}},
	{func(id string) nm.Impl {
		return impl85{mx_xHandle: mx_xHandle{id}, mx_vPatch: mx_vPatch{id}, mx_n1: mx_n1{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "PATCH"}},
	{func(id string) nm.Impl {
		return &impl86{mx_xAllowedMethod: mx_xAllowedMethod{id}, mx_pY: mx_pY{id}, mx_pPost: mx_pPost{id}}
	}, []string{"ALLOWEDMETHOD", "POST", "Y"}},
	{func(id string) nm.Impl {
		return impl86{mx_xAllowedMethod: mx_xAllowedMethod{id}, mx_pY: mx_pY{id}, mx_pPost: mx_pPost{id}}
	}, []string{"ALLOWEDMETHOD"}},
	{func(id string) nm.Impl {
		return &impl87{mx_xNotAllowed: mx_xNotAllowed{id}, mx_n3: mx_n3{id}, mx_vCustom: mx_vCustom{id}}
	}, []string{"CUSTOM", "NOTALLOWED"}},
	{func(id string) nm.Impl {
		return impl87{mx_xNotAllowed: mx_xNotAllowed{id}, mx_n3: mx_n3{id}, mx_vCustom: mx_vCustom{id}}
	}, []string{"CUSTOM", "NOTALLOWED"}},
	{func(id string) nm.Impl {
		return &impl88{mx_xMethodNotAllowed: mx_xMethodNotAllowed{id}, mx_vPost: mx_vPost{id}, mx_xHttp: mx_xHttp{id}}
	}, []string{"HTTP", "METHODNOTALLOWED", "POST"}},
	{func(id string) nm.Impl {
		return impl88{mx_xMethodNotAllowed: mx_xMethodNotAllowed{id}, mx_vPost: mx_vPost{id}, mx_xHttp: mx_xHttp{id}}
	}, []string{"HTTP", "METHODNOTALLOWED", "POST"}},
	{func(id string) nm.Impl {
		return &impl89{mx_xGetMethod: mx_xGetMethod{id}, mx_vTrace: mx_vTrace{id}, mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}, mx_pNA: mx_pNA{id}}
	}, []string{"!", "GETMETHOD", "NOTALLOWEDMETHODS", "TRACE"}},
	{func(id string) nm.Impl {
		return impl89{mx_xGetMethod: mx_xGetMethod{id}, mx_vTrace: mx_vTrace{id}, mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}, mx_pNA: mx_pNA{id}}
	}, []string{"NOTALLOWEDMETHODS", "TRACE"}},
	{func(id string) nm.Impl { return &impl90{mx_xNot: mx_xNot{id}, mx_vPost: mx_vPost{id}} }, []string{"NOT", "POST"}},
	{func(id string) nm.Impl { return impl90{mx_xNot: mx_xNot{id}, mx_vPost: mx_vPost{id}} }, []string{"POST"}},
	{func(id string) nm.Impl {
		return &impl91{mx_xAll: mx_xAll{id}, mx_b4: mx_b4{id}, mx_xRequest: mx_xRequest{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "ALL", "REQUEST"}},
	{func(id string) nm.Impl {
		return impl91{mx_xAll: mx_xAll{id}, mx_b4: mx_b4{id}, mx_xRequest: mx_xRequest{id}, mx_vNA: mx_vNA{id}}
	}, []string{"!", "REQUEST"}},
	{func(id string) nm.Impl { return &impl92{mx_xHttp: mx_xHttp{id}} }, []string{"HTTP"}},
	{func(id string) nm.Impl { return impl92{mx_xHttp: mx_xHttp{id}} }, []string{"HTTP"}},
	{func(id string) nm.Impl { return &impl93{mx_xRequest: mx_xRequest{id}, mx_vPut: mx_vPut{id}} }, []string{"PUT", "REQUEST"}},
	{func(id string) nm.Impl { return impl93{mx_xRequest: mx_xRequest{id}, mx_vPut: mx_vPut{id}} }, []string{"PUT", "REQUEST"}},
	{func(id string) nm.Impl {
		return &impl94{mx_xGe: mx_xGe{id}, mx_n3: mx_n3{id}, mx_vConnect: mx_vConnect{id}, mx_b1: mx_b1{id}}
	}, []string{"CONNECT", "GE"}},
	{func(id string) nm.Impl {
		return impl94{mx_xGe: mx_xGe{id}, mx_n3: mx_n3{id}, mx_vConnect: mx_vConnect{id}, mx_b1: mx_b1{id}}
	}, []string{"CONNECT", "GE"}},
	{func(id string) nm.Impl { return &impl95{mx_xM1: mx_xM1{id}, mx_vHead: mx_vHead{id}} }, []string{"HEAD", "M1"}},
	{func(id string) nm.Impl { return impl95{mx_xM1: mx_xM1{id}, mx_vHead: mx_vHead{id}} }, []string{"HEAD", "M1"}},
	{func(id string) nm.Impl { return &impl96{mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}} }, []string{"NOTALLOWEDMETHODS"}},
	{func(id string) nm.Impl { return impl96{mx_xNotAllowedMethods: mx_xNotAllowedMethods{id}} }, []string{"NOTALLOWEDMETHODS"}},
}
