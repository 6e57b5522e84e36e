package big

import (
	"github.com/pb33f/libopenapi"
	zz "github.com/pb33f/libopenapi/zz_vsym"
)

const src = `openapi: 3.1.0
info:
  title: t
  version: "1"
tags:
  - name: a
paths:
  /burgers/{id}:
    x-foo: bar
    get:
      operationId: getB
      tags: [a]
      parameters:
        - $ref: '#/components/parameters/P'
      responses:
        "200":
          description: ok
          content:
            application/json:
              schema:
                $ref: '#/components/schemas/Burger'
components:
  parameters:
    P:
      name: id
      in: path
      required: true
      schema: {type: string}
  schemas:
    Burger:
      type: object
      required: [name]
      properties:
        name: {type: string, maxLength: 4}
        child:
          $ref: '#/components/schemas/Other'
    Other:
      type: array
      items: {type: integer}
`

func Doc() {
	d, err := libopenapi.NewDocument([]byte(src))
	zz.ObserveB("err", err == nil)
	if err != nil {
		zz.ObserveS("e", err.Error())
		return
	}
	m, err := d.BuildV3Model()
	zz.ObserveB("err2", err == nil)
	if err != nil {
		zz.ObserveS("e", err.Error())
		return
	}
	zz.ObserveS("title", m.Model.Info.Title)
	zz.ObserveI("paths", m.Model.Paths.PathItems.Len())
	s, _ := m.Model.Components.Schemas.Get("Burger")
	zz.ObserveI("props", s.Schema().Properties.Len())
	zz.ObserveI("ml", int(*s.Schema().Properties.GetOrZero("name").Schema().MaxLength))
	zz.ObserveS("opid", m.Model.Paths.PathItems.GetOrZero("/burgers/{id}").Get.Parameters[0].Name)
}

func Render() {
	d, err := libopenapi.NewDocument([]byte(src))
	if err != nil {
		return
	}
	m, err := d.BuildV3Model()
	if err != nil {
		return
	}
	b, err := m.Model.Render()
	zz.ObserveS("out", string(b))
}

func Changes() {
	d, _ := libopenapi.NewDocument([]byte(src))
	d2, _ := libopenapi.NewDocument([]byte(src[:len(src)-9] + "string}\n"))
	ch, err := libopenapi.CompareDocuments(d, d2)
	if err != nil {
		zz.ObserveS("e", err.Error())
		return
	}
	zz.ObserveI("n", ch.TotalChanges())
	zz.ObserveI("b", ch.TotalBreakingChanges())
}
